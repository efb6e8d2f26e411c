/* Stand-ins for what the JNI code allocates: every block ends at an inaccessible page and becomes inaccessible when freed;
   blocks and objects of the library are counted. PngQuant.o is renamed to call these (objcopy --redefine-sym). */
#define _GNU_SOURCE
#include <jni.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "libimagequant.h"

static atomic_long blocks, attrs, images, results;
enum { HEAD = 4096, MAGIC = 0x51ab };
typedef struct { size_t size, map; int magic; } head;

void *guard_malloc(size_t n) {
    size_t body = (n + 4095) / 4096 * 4096, map = HEAD + body + 4096;
    char *p = mmap(NULL, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return NULL;
    mprotect(p + HEAD + body, 4096, PROT_NONE);
    *(head *)p = (head){n, map, MAGIC};
    char *r = p + HEAD + body - n;
    memset(r, 0xA5, n);
    atomic_fetch_add(&blocks, 1);
    return r;
}
static head *head_of(void *q) {
    uintptr_t a = (uintptr_t)q;
    /* the block starts in the page after its header, or right at the guard page if it is empty or a multiple of pages */
    return (head *)((a & ~(uintptr_t)4095) - HEAD);
}
void guard_free(void *q) {
    if (!q) return;
    head *h = head_of(q);
    if (h->magic != MAGIC) abort();
    size_t map = h->map;
    h->magic = 0;
    mprotect(h, map, PROT_NONE); /* addresses are not used again, freeing twice faults */
    madvise(h, map, MADV_DONTNEED);
    atomic_fetch_sub(&blocks, 1);
}
void *guard_calloc(size_t a, size_t b) {
    void *p = guard_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void *guard_realloc(void *q, size_t n) {
    void *p = guard_malloc(n);
    if (q && p) {
        size_t o = head_of(q)->size;
        memcpy(p, q, o < n ? o : n);
        guard_free(q);
    }
    return p;
}
static void *up(atomic_long *c, void *p) { if (p) atomic_fetch_add(c, 1); return p; }

liq_attr *guard_liq_attr_create(void) { return up(&attrs, liq_attr_create()); }
liq_attr *guard_liq_attr_copy(const liq_attr *a) { return up(&attrs, liq_attr_copy(a)); }
void guard_liq_attr_destroy(liq_attr *a) { if (a) atomic_fetch_sub(&attrs, 1); liq_attr_destroy(a); }
liq_image *guard_liq_image_create_custom(const liq_attr *a, liq_image_get_rgba_row_callback *f, void *u, int w, int h, double g) { return up(&images, liq_image_create_custom(a, f, u, w, h, g)); }
liq_image *guard_liq_image_create_rgba(const liq_attr *a, const void *b, int w, int h, double g) { return up(&images, liq_image_create_rgba(a, b, w, h, g)); }
liq_image *guard_liq_image_create_rgba_rows(const liq_attr *a, void *const b[], int w, int h, double g) { return up(&images, liq_image_create_rgba_rows(a, b, w, h, g)); }
void guard_liq_image_destroy(liq_image *a) { if (a) atomic_fetch_sub(&images, 1); liq_image_destroy(a); }
liq_result *guard_liq_quantize_image(liq_attr *a, liq_image *i) { return up(&results, liq_quantize_image(a, i)); }
liq_error guard_liq_image_quantize(liq_image *i, liq_attr *a, liq_result **r) {
    liq_error e = liq_image_quantize(i, a, r);
    if (e == LIQ_OK) atomic_fetch_add(&results, 1);
    return e;
}
void guard_liq_result_destroy(liq_result *a) { if (a) atomic_fetch_sub(&results, 1); liq_result_destroy(a); }

JNIEXPORT jlongArray JNICALL Java_Peer_live(JNIEnv *env, jclass c) {
    jlong v[4] = {blocks, attrs, images, results};
    jlongArray r = (*env)->NewLongArray(env, 4);
    (*env)->SetLongArrayRegion(env, r, 0, 4, v);
    return r;
}
