/* Calls every function of the C API the way libimagequant.h declares it; names of the header are turned into the numbers of capi.rs.
*/
#include <stdlib.h>
#include <stddef.h>
#include "libimagequant.h"

typedef struct { unsigned char r, g, b, a; } pcolor;
typedef struct { pcolor color; unsigned count; } pentry;

static int code(liq_error e) {
    if (e == LIQ_OK) return 0;
    if (e == LIQ_QUALITY_TOO_LOW) return 99;
    if (e == LIQ_VALUE_OUT_OF_RANGE) return 100;
    if (e == LIQ_OUT_OF_MEMORY) return 101;
    if (e == LIQ_ABORTED) return 102;
    if (e == LIQ_BITMAP_NOT_AVAILABLE) return 103;
    if (e == LIQ_BUFFER_TOO_SMALL) return 104;
    if (e == LIQ_INVALID_POINTER) return 105;
    if (e == LIQ_UNSUPPORTED) return 106;
    return 1000000 + (int)e;
}
static int own(int f) {
    int known = LIQ_OWN_ROWS | LIQ_OWN_PIXELS | LIQ_COPY_PIXELS, r = f & ~28;
    if (f & 4) r |= LIQ_OWN_ROWS;
    if (f & 8) r |= LIQ_OWN_PIXELS;
    if (f & 16) r |= LIQ_COPY_PIXELS;
    /* a flag the header does not have may not turn into one it has */
    if ((f & ~28) & known) r = f;
    return r;
}
static liq_color col(pcolor c) { liq_color r; r.r = c.r; r.g = c.g; r.b = c.b; r.a = c.a; return r; }
static liq_histogram_entry *ents(const pentry *e, int n) {
    liq_histogram_entry *r;
    int i;
    if (!e || n <= 0) return (liq_histogram_entry *)e;
    r = malloc(sizeof(*r) * (size_t)n);
    for (i = 0; i < n; i++) { r[i].color = col(e[i].color); r[i].count = e[i].count; }
    return r;
}
unsigned h_pal_count(const void *p) { return ((const liq_palette *)p)->count; }
pcolor h_pal_entry(const void *p, unsigned i) {
    liq_color c = ((const liq_palette *)p)->entries[i];
    pcolor r = {c.r, c.g, c.b, c.a};
    return r;
}
/* sizes and positions that callbacks rely on */
long h_layout(int i) {
    switch (i) {
        case 0: return sizeof(liq_color);
        case 1: return offsetof(liq_color, r);
        case 2: return offsetof(liq_color, g);
        case 3: return offsetof(liq_color, b);
        case 4: return offsetof(liq_color, a);
        case 5: return sizeof(((liq_palette *)0)->entries) / sizeof(liq_color);
        case 6: return LIQ_VERSION;
        case 10: return LIQ_OK;
        case 11: return LIQ_QUALITY_TOO_LOW;
        case 12: return LIQ_VALUE_OUT_OF_RANGE;
        case 13: return LIQ_OUT_OF_MEMORY;
        case 14: return LIQ_ABORTED;
        case 15: return LIQ_BITMAP_NOT_AVAILABLE;
        case 16: return LIQ_BUFFER_TOO_SMALL;
        case 17: return LIQ_INVALID_POINTER;
        case 18: return LIQ_UNSUPPORTED;
    }
    return -1;
}
void * h_liq_attr_create(void) {
    return (void *)liq_attr_create();
}
void * h_liq_attr_create_with_allocator(void *m, void *f) {
    return (void *)liq_attr_create_with_allocator((void *)m, f);
}
void * h_liq_attr_copy(void *a) {
    return (void *)liq_attr_copy((void *)a);
}
void h_liq_attr_destroy(void *a) {
    liq_attr_destroy((void *)a);
}
void * h_liq_histogram_create(void *a) {
    return (void *)liq_histogram_create((void *)a);
}
int h_liq_histogram_add_image(void *h, void *a, void *i) {
    int rc_ = code(liq_histogram_add_image((void *)h, (void *)a, (void *)i));
    return rc_;
}
int h_liq_histogram_add_colors(void *h, void *a, const pentry *e, int n, double g) {
    liq_histogram_entry *entries = ents(e, n);
    int rc_ = code(liq_histogram_add_colors((void *)h, (void *)a, entries, n, g));
    if ((void *)entries != (void *)e) free(entries);
    return rc_;
}
int h_liq_histogram_add_fixed_color(void *h, pcolor c, double g) {
    int rc_ = code(liq_histogram_add_fixed_color((void *)h, col(c), g));
    return rc_;
}
void h_liq_histogram_destroy(void *h) {
    liq_histogram_destroy((void *)h);
}
int h_liq_set_max_colors(void *a, int n) {
    int rc_ = code(liq_set_max_colors((void *)a, n));
    return rc_;
}
int h_liq_get_max_colors(void *a) {
    return liq_get_max_colors((void *)a);
}
int h_liq_set_speed(void *a, int n) {
    int rc_ = code(liq_set_speed((void *)a, n));
    return rc_;
}
int h_liq_get_speed(void *a) {
    return liq_get_speed((void *)a);
}
int h_liq_set_min_opacity(void *a, int n) {
    int rc_ = code(liq_set_min_opacity((void *)a, n));
    return rc_;
}
int h_liq_get_min_opacity(void *a) {
    return liq_get_min_opacity((void *)a);
}
int h_liq_set_min_posterization(void *a, int n) {
    int rc_ = code(liq_set_min_posterization((void *)a, n));
    return rc_;
}
int h_liq_get_min_posterization(void *a) {
    return liq_get_min_posterization((void *)a);
}
int h_liq_set_quality(void *a, int min, int max) {
    int rc_ = code(liq_set_quality((void *)a, min, max));
    return rc_;
}
int h_liq_get_min_quality(void *a) {
    return liq_get_min_quality((void *)a);
}
int h_liq_get_max_quality(void *a) {
    return liq_get_max_quality((void *)a);
}
void h_liq_set_last_index_transparent(void *a, int n) {
    liq_set_last_index_transparent((void *)a, n);
}
void h_liq_set_log_callback(void *a, liq_log_callback_function *c, void *u) {
    liq_set_log_callback((void *)a, c, (void *)u);
}
void h_liq_set_log_flush_callback(void *a, liq_log_flush_callback_function *c, void *u) {
    liq_set_log_flush_callback((void *)a, c, (void *)u);
}
void h_liq_attr_set_progress_callback(void *a, liq_progress_callback_function *c, void *u) {
    liq_attr_set_progress_callback((void *)a, c, (void *)u);
}
void h_liq_result_set_progress_callback(void *r, liq_progress_callback_function *c, void *u) {
    liq_result_set_progress_callback((void *)r, c, (void *)u);
}
void * h_liq_image_create_rgba_rows(void *a, void *rows, int w, int h, double g) {
    return (void *)liq_image_create_rgba_rows((void *)a, (void *)rows, w, h, g);
}
void * h_liq_image_create_rgba(void *a, void *p, int w, int h, double g) {
    return (void *)liq_image_create_rgba((void *)a, (void *)p, w, h, g);
}
void * h_liq_image_create_custom(void *a, liq_image_get_rgba_row_callback *cb, void *u, int w, int h, double g) {
    return (void *)liq_image_create_custom((void *)a, cb, (void *)u, w, h, g);
}
int h_liq_image_set_memory_ownership(void *i, int f) {
    int rc_ = code(liq_image_set_memory_ownership((void *)i, own(f)));
    return rc_;
}
int h_liq_image_set_background(void *i, void *b) {
    int rc_ = code(liq_image_set_background((void *)i, (void *)b));
    return rc_;
}
int h_liq_image_set_importance_map(void *i, void *b, size_t n, int o) {
    int rc_ = code(liq_image_set_importance_map((void *)i, (void *)b, n, own(o)));
    return rc_;
}
int h_liq_image_add_fixed_color(void *i, pcolor c) {
    int rc_ = code(liq_image_add_fixed_color((void *)i, col(c)));
    return rc_;
}
int h_liq_image_get_width(void *i) {
    return liq_image_get_width((void *)i);
}
int h_liq_image_get_height(void *i) {
    return liq_image_get_height((void *)i);
}
void h_liq_image_destroy(void *i) {
    liq_image_destroy((void *)i);
}
int h_liq_histogram_quantize(void *h, void *a, void *r) {
    int rc_ = code(liq_histogram_quantize((void *)h, (void *)a, (void *)r));
    return rc_;
}
int h_liq_image_quantize(void *i, void *a, void *r) {
    int rc_ = code(liq_image_quantize((void *)i, (void *)a, (void *)r));
    return rc_;
}
void * h_liq_quantize_image(void *a, void *i) {
    return (void *)liq_quantize_image((void *)a, (void *)i);
}
int h_liq_set_dithering_level(void *r, float d) {
    int rc_ = code(liq_set_dithering_level((void *)r, d));
    return rc_;
}
int h_liq_set_output_gamma(void *r, double g) {
    int rc_ = code(liq_set_output_gamma((void *)r, g));
    return rc_;
}
double h_liq_get_output_gamma(void *r) {
    return liq_get_output_gamma((void *)r);
}
void * h_liq_get_palette(void *r) {
    return (void *)liq_get_palette((void *)r);
}
int h_liq_write_remapped_image(void *r, void *i, void *b, size_t n) {
    int rc_ = code(liq_write_remapped_image((void *)r, (void *)i, (void *)b, n));
    return rc_;
}
int h_liq_write_remapped_image_rows(void *r, void *i, void *rows) {
    int rc_ = code(liq_write_remapped_image_rows((void *)r, (void *)i, (void *)rows));
    return rc_;
}
double h_liq_get_quantization_error(void *r) {
    return liq_get_quantization_error((void *)r);
}
int h_liq_get_quantization_quality(void *r) {
    return liq_get_quantization_quality((void *)r);
}
double h_liq_get_remapping_error(void *r) {
    return liq_get_remapping_error((void *)r);
}
int h_liq_get_remapping_quality(void *r) {
    return liq_get_remapping_quality((void *)r);
}
void h_liq_result_destroy(void *r) {
    liq_result_destroy((void *)r);
}
int h_liq_version(void) {
    return liq_version();
}
