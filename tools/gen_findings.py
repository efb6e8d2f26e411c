#!/usr/bin/env python3
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "reading the palette lost precision": ("C20", "palette() rounded the stored colors to the output gamma in force, so palettes in another gamma and dithered remaps obtained later were off (e.g. darker than the right value by all of it: 50 -> 0) (also C21)"),
 "overflowed pixel count": ("C03", "remapping_error() of an image with 65536x65537 pixels was 65536 times too large (u32 overflow of width*height; a panic with overflow checks, C19)"),
 "clone of an image with owned": ("C11", "a clone of an image with owned pixels read the original's freed pixels (also C19)"),
 "made only of fixed colors": ("C05", "a histogram of fixed colors only had zero total weight: NaN errors, assertion failure (also C19)"),
 "set_output_gamma accepted NaN": ("C13", "set_output_gamma(NaN) was accepted"),
 "previous output gamma": ("C20", "palette() after set_output_gamma() returned the palette in the old gamma once it had been read"),
 "overwrite user's importance": ("C09", "the generated noise map replaced the user's importance map on a dithered remap; a zeroed map was left after an allocation failure (C18)"),
 "Histogram::add_image did not fail": ("C05", "more than 256 fixed colors could be added through images"),
 "Break from the progress": ("C14", "Break during palette search/refinement only ended the search early, quantize() still succeeded"),
 "out-of-range C ints": ("C13", "liq_set_quality(256+x) and liq_set_min_posterization(256+x) were truncated to a valid value"),
 "NULL objects passed": ("C17", "several C functions crashed on NULL objects instead of the documented error or sentinel"),
 "NULL callback must clear": ("C23", "NULL callbacks crashed instead of clearing the callback (also C17)"),
 "taking ownership of rows": ("C16", "LIQ_OWN_ROWS after remapping freed a pointer that was not given by the caller"),
 "leaked the background": ("C16", "liq_image_set_background leaked the handle of the background"),
 "silently truncated indices": ("C22", "dithered remap with a palette above 256 colors truncated indices instead of failing with Unsupported"),
 "read uninitialized memory": ("C19", "the warm-up rows of later dithering chunks read uninitialised memory as palette indices"),
 "lost their counts": ("C12", "re-posterization of histogram entries dropped the counts of merged entries"),
 "opaque threshold": ("C08", "an entry whose alpha lies exactly on the threshold is written as opaque but was sorted among the transparent ones"),
 "accepted invalid gamma": ("C13", "Histogram::add_fixed_color accepted negative, NaN and too large gammas"),
 "aimed for too few colors": ("C06", "quality-too-low was returned for images that fit the palette (e.g. 120 colors, limit 229, quality 71-84), because the search for the target quality had used too few colors"),
 "took two palette entries": ("C12", "at speeds 8-10 a color that is both fixed and present in the image took two palette entries, so images that fit lost a color (also C02, C05)"),
 "differently ordered palette": ("C12", "quantizing the same histogram with fixed colors a second time could give the same colors in another order, because re-inserting the fixed colors grew the hash table"),
 "grow to infinity": ("C19", "adjusted weights overflowed to infinity at speed 1 with target quality 0, giving NaN colors / assertion failure"),
 "Java: image was returned": ("C25", "Result.getRemapped() read the palette before remapping, which refines it, so the returned image had other colors than it was remapped to"),
 "Java: premultiplied": ("C25", "making an Image of a TYPE_4BYTE_ABGR_PRE BufferedImage un-premultiplied the caller's image in place"),
 "Java: sub-images": ("C25", "an Image of a BufferedImage.getSubimage() took its pixels from the wrong place of the parent's buffer; translucent pixels of converted images were altered by blending"),
 "preparing for dithering": ("C19", "QuantizationResult::optionally_prepare_for_dithering_with_background_set panicked on a buffer that is larger than the image"),
 "with_allocator(NULL, NULL)": ("C16", "attributes made by liq_attr_create_with_allocator(NULL, NULL), whose parameters the header calls removed, called NULL to free owned memory"),
 "a row pointer was NULL": ("C17", "liq_write_remapped_image_rows wrote through a NULL row pointer instead of returning LIQ_INVALID_POINTER"),
 "Java: garbage collector": ("C25", "the garbage collector could finalize PngQuant, Image and Result objects while native code was using them (use after free, JVM crash)"),
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        k = [m for m in MAP if m in s]
        assert len(k) == 1, s
        p, w = MAP[k[0]]
        out.append({"property": p, "status": "fixed", "commit": h, "what": w, "line": "fixed: property=%s %s %s" % (p, h, w)})
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "known_findings.txt"), "w").write("".join(o["line"] + "\n" for o in out))
