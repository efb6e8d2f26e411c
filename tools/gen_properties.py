#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Remapping writes a complete, in-bounds, index-valid image",
  "Every successful remap, through any output API (vector, slice, C buffer, C row pointers), writes exactly width×height index bytes, each one, and nothing outside them, and the bytes do not depend on what the output memory held before. "
  "Every written index is smaller than the length of the palette returned with it, and that palette has at least 1 and at most max_colors entries. "
  "A destination that is too small is refused with the buffer-too-small error before anything is written.",
  ["inputs", "configurations"], "all image sizes (1x1 upwards, thin, taller than one dithering chunk, more than 4M pixels), pixel contents, speeds, qualities, color limits, dither levels, importance maps, backgrounds, output APIs and buffer sizes",
  "Tests remap a handful of fixed images into exactly sized vectors; none checks guard bytes, previous contents, strided output rows or palette bounds over a space of inputs.",
  ["src/remap.rs", "src/quant.rs", "src/seacow.rs", "src/capi.rs", "imagequant-sys/src/ffi.rs"],
  [("row partition into chunks/rows", "src/seacow.rs RowBitmapMut"), ("undithered writer", "src/remap.rs remap_to_palette"), ("dithered writer", "src/remap.rs dither_row"), ("size checks", "src/quant.rs remap_into; imagequant-sys/src/ffi.rs liq_write_remapped_image")],
  observe=["remapped()", "remap_into()", "liq_write_remapped_image()", "liq_write_remapped_image_rows()"])

p("C02", "Images that already fit in the palette are converted losslessly",
  "When an image (or histogram) has no more distinct colors than max_colors, all fully transparent colors counting as one, and best quality with no posterization is requested, the palette is exactly the set of input colors and remapping reproduces every pixel exactly. "
  "This holds for every speed, every dithering level, every input gamma in the normal range and every pixel source, and the reported error is 0 with quality 100. "
  "At speeds 8-10, which deliberately ignore the lowest bit of each channel, it holds for colors that differ in the other seven bits.",
  ["inputs", "configurations"], "all color sets of up to 256 colors, spatial layouts, image sizes, max_colors, speeds 1-10, dither levels, gammas 0.2-1.0, fixed colors included in the budget",
  "Existing tests use one or two hand-made palettes (a few opaque grays and a sweep) at the default speed.",
  ["src/quant.rs", "src/hist.rs", "src/pal.rs", "src/remap.rs", "src/nearest.rs"],
  [("exact palette short-cut", "src/quant.rs palette_from_histogram"), ("exact color hashing", "src/hist.rs add_color"), ("u8<->float round trip", "src/pal.rs from_rgba/to_rgb"), ("no error diffused when below threshold", "src/remap.rs get_dithered_pixel")],
  observe=["palette()", "remapped()", "quantization_error()", "quantization_quality()"])

p("C03", "Undithered remapping picks a nearest palette color and reports the true error",
  "With dithering off, every pixel is assigned a palette entry whose perceptual distance to the pixel (premultiplied, weighted, worst case of black and white backdrop) is minimal over the whole palette, up to floating-point tolerance. "
  "The reported remapping error is the mean of these minimal distances over all pixels, and remapping quality is that error on the quality scale. "
  "Neither depends on the order of pixels, on neighbouring pixels or on the size of the image.",
  ["inputs"], "all palettes (1-256 entries, clustered, duplicate, opaque and translucent) and all pixels, gammas and image sizes including images too large for the in-memory float copy",
  "A test can compare a few pixels with a linear search; the tree search prunes by triangle inequality and by guessed candidates, so wrong prunes show only for particular palettes and pixel orders.",
  ["src/nearest.rs", "src/remap.rs", "src/pal.rs", "src/rows.rs"],
  [("vantage-point tree search with early exit", "src/nearest.rs search/vp_search_node"), ("guess re-use along the row", "src/remap.rs remap_to_palette"), ("SIMD/scalar distance", "src/pal.rs diff")],
  observe=["remapped()", "remapping_error()", "remapping_quality()"])

p("C04", "Dithering preserves local average color",
  "With dithering on, the average of the output colors over a smooth area approximates the average of the input colors (in the library's linear working space) much better than the palette spacing allows without dithering, in all color channels and in every part of the image, including across internally parallel bands. "
  "Individual output pixels stay close to the input (no colors far outside the neighbouring palette steps). "
  "The effect grows from the undithered result at level 0 to full strength at level 1.",
  ["inputs", "configurations"], "all smooth gradients and flat areas, palettes with a fine enough spacing, dither levels, speeds, image widths and heights (also more than 128 rows, several bands, and images over the in-memory limit)",
  "Existing tests look only at whether dithering runs; none measures error diffusion.",
  ["src/remap.rs", "src/image.rs", "src/quant.rs"],
  [("serpentine error diffusion", "src/remap.rs dither_row"), ("error limiting", "src/remap.rs get_dithered_pixel"), ("band warm-up rows", "src/remap.rs remap_to_palette_floyd"), ("dither map", "src/image.rs update_dither_map")],
  observe=["remapped()"])

p("C05", "Fixed colors are always present in the palette",
  "Every color added as a fixed color to an image or histogram (the first max_colors of them if there are more) appears exactly in the resulting palette, before and after remapping, apart from the requested output posterization and gamma; a fully transparent fixed color yields a fully transparent entry. "
  "Fixed colors never raise the palette above max_colors. "
  "At most 256 fixed colors are accepted per image or histogram, and further ones are refused with an error that leaves the accepted ones in force.",
  ["inputs", "histories"], "all images/histograms, fixed-color lists (distinct colors, near-duplicates, transparent, in or out of the image, more than max_colors), speeds, qualities, posterization, dithering, repeated remaps",
  "Tests pin a few palettes; the placement of fixed colors interacts with median cut, k-means in quantization, k-means during remapping and low target quality.",
  ["src/hist.rs", "src/pal.rs", "src/kmeans.rs", "src/image.rs", "src/quant.rs"],
  [("fixed weight in histogram", "src/hist.rs finalize_builder"), ("palette substitution", "src/pal.rs with_fixed_colors"), ("fixed entries skipped by k-means", "src/kmeans.rs finalize/replace_unused_colors"), ("256 limit", "src/hist.rs add_fixed_color/add_image; src/image.rs add_fixed_color")],
  observe=["palette()", "remapped()", "add_fixed_color()"])

p("C06", "Quality limits are honoured and reported honestly",
  "Quantization that succeeds with a minimum quality reports a quality of at least that minimum, and it fails with the quality-too-low error only when the minimum is above zero and the best palette for that color limit really misses it. "
  "The reported quantization error is, up to the effect of the last refinement step, the weighted mean perceptual error of the palette against the input histogram, the reported quality is a monotone function of it, and it is available whenever a quality range has been set or the speed is 1-7. "
  "Lowering the target quality never yields more colors than the limit, and a result clearly worse than the target quality means that the color limit was used up.",
  ["inputs", "configurations"], "all images/histograms, quality ranges 0-100, color limits and speeds",
  "Tests set one quality range on one image; whether the reported number corresponds to the palette actually returned is never compared with an independent computation.",
  ["src/quant.rs", "src/attr.rs", "src/kmeans.rs", "src/mediancut.rs", "src/hist.rs"],
  [("max_mse check", "src/quant.rs QuantizationResult::new"), ("error accounting", "src/kmeans.rs iteration"), ("target mse", "src/attr.rs target_mse"), ("quality curve", "src/quant.rs quality_to_mse/mse_to_quality")],
  observe=["quantize()", "quantization_quality()", "quantization_error()"])

p("C07", "Output posterization applies to every palette channel",
  "With minimum posterization of N bits, every channel of every palette entry that is not fully transparent has its N low bits equal to its N high bits (N low bits ignored and replicated), whatever the source of the entry (quantized, lossless, fixed color, remapped or frozen). "
  "Without posterization no channel precision is removed: distinct fixed colors keep all their bits.",
  ["inputs", "configurations"], "all images, fixed colors, output gammas, speeds and posterization bits 0-4, before and after remapping",
  "The existing test checks the getter and one internal function, not the palettes produced.",
  ["src/pal.rs", "src/quant.rs", "src/attr.rs"],
  [("posterize_channel", "src/pal.rs init_int_palette"), ("setting carried to result", "src/quant.rs QuantizationResult::new")],
  observe=["palette()", "remapped()"])

p("C08", "Transparent palette entries are ordered as requested",
  "By default, and without posterization, all entries of a quantized palette that are not fully opaque come before all fully opaque ones, so that a PNG tRNS chunk can be truncated. "
  "With last_index_transparent set, if the quantized palette has a fully transparent entry then the last palette entry is fully transparent. "
  "The order of the palette returned by quantization is kept by remapping, so indices keep their meaning.",
  ["inputs", "configurations"], "all images with mixed alpha, color limits, speeds, fixed colors, both settings of last_index_transparent, images and histograms",
  "Tests check one image with one transparent color.",
  ["src/quant.rs"],
  [("sort_palette", "src/quant.rs sort_palette")], observe=["palette()", "remapped()"])

p("C09", "The importance map controls which pixels shape the palette",
  "Pixels whose importance is zero have no influence at all on the generated palette, pixels with higher importance never have less influence than the same pixels with lower importance, and an image without any important pixel is refused as unsupported. "
  "A map of the wrong size is refused and leaves the image unchanged. "
  "The map given by the user stays in force for later quantizations and remappings of the same image.",
  ["inputs", "histories"], "all images, importance maps, replacement colors in zero-importance areas, speeds, histories that quantize and remap the same image repeatedly",
  "A single 2-pixel test exists; interaction with the internally generated contrast map and with remapping is not covered.",
  ["src/image.rs", "src/hist.rs", "src/remap.rs"],
  [("boost per pixel", "src/hist.rs add_pixel_rows"), ("map kept vs. generated noise map", "src/image.rs contrast_maps"), ("weights in remap k-means", "src/remap.rs remap_to_palette")],
  observe=["set_importance_map()", "palette()"])

p("C10", "Background images turn matching pixels transparent and nothing else",
  "When a background is set and the palette has a fully transparent entry, undithered remapping gives a pixel the transparent entry exactly when the background pixel is at least as close to it as the nearest palette color; with an identical background every pixel becomes transparent, also with dithering. "
  "Compositing the remapped image over the background never moves a pixel further from the original than the remap without a background, except pixels whose nearest palette color is itself the transparent one. "
  "Without a transparent entry the background has no effect, and backgrounds of another size or with a background of their own are refused.",
  ["inputs"], "all foreground/background pairs, palettes with and without a transparent entry, dithering on and off, speeds, importance maps",
  "One existing test uses an identical background; partial matches are not examined.",
  ["src/remap.rs", "src/image.rs", "imagequant-sys/src/ffi.rs"],
  [("bg_diff comparison", "src/remap.rs remap_to_palette"), ("dithered background choice", "src/remap.rs dither_row"), ("validation", "src/image.rs set_background")],
  observe=["set_background()", "remapped()"])

p("C11", "All pixel sources describe the same image",
  "The same pixels give identical palettes, indices and errors whichever way they are supplied: owned, borrowed, with a row stride and arbitrary padding, through a row callback, as C bitmap, C row pointers in any memory order, C custom callback, or a clone of any of these used after the original is gone. "
  "Row callbacks are asked only for existing rows and for exactly width pixels, and input pixels are never modified.",
  ["inputs", "configurations"], "all image sizes, strides, paddings, row orders, speeds, dither levels, and images large enough to be streamed row by row",
  "Tests construct images in several ways but never compare the results.",
  ["src/rows.rs", "src/image.rs", "src/seacow.rs", "src/capi.rs", "imagequant-sys/src/ffi.rs"],
  [("row pointers", "src/rows.rs PixelsSource::for_pixels"), ("callback rows", "src/rows.rs row_rgba"), ("clone", "src/rows.rs Clone for DynamicRows"), ("float cache vs streaming", "src/rows.rs prepare_iter")],
  observe=["Image::new*", "liq_image_create_*"])

p("C12", "Histograms accumulate inputs faithfully and give one shared palette",
  "A histogram built from images and color lists represents the union of their colors with added-up weights: when the union fits the palette it is reproduced exactly, regardless of the order or grouping of the additions, and entries with a zero count have no effect. "
  "A larger count never makes a color be represented worse relative to equal colors, and counts saturate instead of wrapping. "
  "The palette of a histogram is frozen: remapping any number of images yields that same palette every time, and quantizing the same histogram again gives the same result.",
  ["inputs", "histories"], "all sequences of add_image/add_colors/add_fixed_color in any order and grouping, counts up to 2^32-1, repeated quantize, any images remapped afterwards",
  "Tests add two single-pixel images and one entry once.",
  ["src/hist.rs", "src/quant.rs", "src/pal.rs", "src/kmeans.rs"],
  [("hash accumulation", "src/hist.rs add_color"), ("re-posterization of entries", "src/hist.rs init_posterize_bits"), ("frozen colors", "src/quant.rs QuantizationResult::new freeze_result_colors")],
  observe=["Histogram::*", "palette()", "remapped()"])

p("C13", "Settings are validated, stored exactly and isolated",
  "Each setter and constructor accepts exactly its documented range and rejects everything else (any integer, NaN, infinities, wrong sizes) with the documented error, through the Rust and the C interface alike. "
  "An accepted value is what the getter returns, and a rejected call changes nothing. "
  "Copies of the settings are independent of the original.",
  ["inputs", "histories"], "all sequences of setter/getter/constructor calls with arguments over the full integer and floating-point ranges",
  "Tests try a couple of out-of-range values per setter.",
  ["src/attr.rs", "src/quant.rs", "src/image.rs", "src/hist.rs", "src/rows.rs", "imagequant-sys/src/ffi.rs"],
  [("range checks", "src/attr.rs set_*; src/quant.rs set_*; src/image.rs new_internal/check_image_size; src/hist.rs add_colors"), ("C int conversion", "imagequant-sys/src/ffi.rs")],
  observe=["set_*/get_*", "Image::new*", "liq_set_*/liq_get_*"])

p("C14", "Progress callbacks are truthful and can abort at every point",
  "Progress values are always within 0-100, and returning Break at any single progress report of quantization or remapping makes that operation fail with the aborted error without further reports. "
  "Returning Continue always never changes the result. "
  "After an abort all objects remain valid, and repeating the operation without abort gives the result it would have given (a dithered remap at speeds 1-6, which caches a dither map in the image, with a fresh image).",
  ["inputs", "fault_sequences", "histories"], "every call index k at which the callback breaks, for all images, speeds, dither levels, histogram and image quantization, Rust and C callbacks",
  "Tests only check that the callback is called once.",
  ["src/attr.rs", "src/quant.rs", "src/hist.rs", "src/remap.rs"],
  [("abort checks", "src/quant.rs find_best_palette/refine_palette/QuantizationResult::new; src/hist.rs add_image/quantize_internal"), ("remap abort", "src/quant.rs write_remapped_image_rows_internal; src/remap.rs remap_to_palette_floyd")],
  observe=["set_progress_callback()"])

p("C15", "Results are deterministic and isolated from other work",
  "With one worker thread the same calls with the same inputs give bit-identical palettes, indices and errors, however often they are repeated, whatever was processed before and whatever other threads process at the same time with their own objects. "
  "With several worker threads this holds wherever no floating-point summation order is involved (inputs of at most 256 distinct colors, undithered or remapped with a frozen palette), and the build without threads agrees with one worker thread except for the band boundaries of dithered images taller than 128 rows. "
  "Objects may be moved to and used from other threads.",
  ["inputs", "schedules", "histories"], "all jobs, repetitions, interleavings of concurrent jobs, thread counts and the threads/no-threads builds",
  "Each test runs one job once.",
  ["src/remap.rs", "src/kmeans.rs", "src/hist.rs", "src/rayoff.rs", "src/lib.rs"],
  [("deterministic hasher", "src/hist.rs U32Hasher"), ("per-thread accumulators", "src/kmeans.rs iteration; src/remap.rs remap_to_palette"), ("rayon stand-in", "src/rayoff.rs")],
  observe=["quantize()", "remapped()"])

p("C16", "C memory ownership: freed exactly once, never leaked, never freed early",
  "Buffers whose ownership is transferred to the C API (pixels, row pointers, importance maps, backgrounds) are freed exactly once with the configured free function and not before the library's last use; buffers not transferred are never freed or modified. "
  "Destroying all objects releases all memory the library allocated, for every order of operations and destruction, also after failed calls.",
  ["histories", "inputs"], "all sequences of create/set_memory_ownership/importance map/background/quantize/remap/copy/destroy over the C API including invalid flag combinations and failing calls",
  "The C test creates and destroys a few objects in one order and never counts frees.",
  ["imagequant-sys/src/ffi.rs", "src/seacow.rs", "src/rows.rs", "src/capi.rs"],
  [("owned buffers", "src/seacow.rs SeaCowInner::drop/make_owned"), ("ownership transfer", "src/rows.rs set_memory_ownership/free_histogram_inputs"), ("handles", "imagequant-sys/src/ffi.rs liq_image_set_background, *_destroy")],
  observe=["free function calls", "allocator balance"])

p("C17", "The C API is equivalent to the Rust API and tolerates bad handles",
  "For every sequence of operations the C functions return the same palettes, indices, errors and numbers as the corresponding Rust calls, with the documented error codes and sentinel values; a program compiled against libimagequant.h gets exactly this through the header's prototypes, constants and structures. "
  "NULL or wrong-type object handles, NULL buffers and NULL callbacks are answered with the invalid-pointer error, a sentinel, NULL or no effect, as documented, never with a crash, and leave the other objects untouched.",
  ["inputs", "histories"], "all operation sequences expressible in both APIs, and every function with NULL or a handle of another object type in each handle position",
  "The C test exercises one path with valid handles, plus a few NULLs.",
  ["imagequant-sys/src/ffi.rs", "imagequant-sys/libimagequant.h", "src/capi.rs"],
  [("magic headers", "imagequant-sys/src/ffi.rs bad_object!"), ("error mapping", "imagequant-sys/src/ffi.rs store_boxed_result"), ("thin wrappers", "imagequant-sys/src/ffi.rs")],
  observe=["liq_*"])

p("C18", "Failed allocation of image-sized buffers is reported, not fatal",
  "If the allocation of a pixel, row, map or output buffer sized by the image fails at any point of adding to a histogram, quantization or remapping, the call returns the out-of-memory error (or a correct result without that buffer) instead of aborting the process, panicking or returning wrong output. "
  "All objects remain valid: repeating the call with memory available gives the normal result.",
  ["fault_sequences", "inputs"], "every image-sized allocation request of a job, failed one at a time or from that point on, over images, speeds, dither levels and histograms",
  "No test injects allocation failures.",
  ["src/rows.rs", "src/image.rs", "src/remap.rs", "src/quant.rs", "src/hist.rs", "src/error.rs"],
  [("try_reserve based buffers", "src/rows.rs temp_buf; src/image.rs try_zero_vec"), ("NaN error propagation", "src/remap.rs remap_to_palette"), ("TryReserveError mapping", "src/error.rs")],
  observe=["Result of quantize()/remapped()"])

p("C19", "No valid sequence of API calls panics or touches memory it must not",
  "Any sequence of safe Rust API calls, or of C API calls that respects the header's lifetime rules, with any argument values, returns normally (with success or an error): no panic, abort, arithmetic overflow, out-of-bounds or use-after-free access, or read of uninitialised memory. "
  "Objects may be dropped in any order their lifetimes allow and reused after any error.",
  ["inputs", "histories", "configurations"], "all call sequences over attributes, images, histograms, results and their clones, with extreme sizes, gammas, counts and contents, under address sanitizer and with internal assertions enabled",
  "Tests run a dozen fixed sequences without sanitizers.",
  ["src/rows.rs", "src/seacow.rs", "src/remap.rs", "src/mediancut.rs", "src/hist.rs", "src/pal.rs", "imagequant-sys/src/ffi.rs"],
  [("unsafe row access", "src/rows.rs row_rgba; src/seacow.rs"), ("unchecked indexing", "src/mediancut.rs qsort_pivot"), ("debug assertions", "src/*.rs")],
  observe=["process exit", "sanitizer reports"])

p("C20", "Gamma is applied consistently between input and output",
  "Palette colors are expressed in the requested output gamma: an input color c given with input gamma g appears as (c/255)^(output/input gamma) up to rounding, the default output gamma being the input's. "
  "The gamma getter returns the gamma in force, a zero input gamma means 0.45455, and changing the output gamma at any moment affects all palettes obtained afterwards, whatever was called before.",
  ["inputs", "histories"], "all colors, valid input and output gammas, and orders of palette/set_output_gamma/remap calls",
  "No test sets an output gamma different from the default and looks at the palette.",
  ["src/pal.rs", "src/quant.rs", "src/hist.rs"],
  [("gamma_lut/to_rgb", "src/pal.rs"), ("set_output_gamma", "src/quant.rs"), ("gamma of histogram", "src/hist.rs")],
  observe=["palette()", "output_gamma()"])

p("C21", "A result object stays consistent over any history of calls",
  "Reading the palette, its length, errors or qualities never changes later results, and neither do rejected calls; after a remap the palette getters return exactly the palette that belongs to the written indices until the next remap or setting change, which then revert to the quantized palette. "
  "Repeating an undithered remap gives the same output, remapping the same image with the same settings from a clone gives the same output as from the original, and clones and originals do not affect each other.",
  ["histories"], "all sequences of palette/remap/set_dithering_level/set_output_gamma/clone/getter calls over several images",
  "Tests call each method once in the canonical order.",
  ["src/quant.rs", "src/remap.rs", "src/pal.rs"],
  [("remapped state", "src/quant.rs int_palette/remapped"), ("clone", "src/quant.rs Clone for QuantizationResult")],
  state=[dict(name="remapped", meaning="palette and error of the last remap", where="src/quant.rs")],
  observe=["palette()", "palette_vec()", "palette_len()", "remapping_error()"])

p("C22", "The large-palette build keeps palettes exact and refuses to remap them",
  "With the large_palettes feature a palette of up to 2048 fixed colors, or of the colors of an input having up to 2048 different ones (at speeds 1-7, best quality), is accepted and returned exactly; no more fixed colors than that are accepted. "
  "Remapping with a palette of more than 256 colors is refused with the unsupported error, with and without dithering and at every speed, and leaves the result and the image usable, while jobs with a limit of at most 256 colors give exactly the same palettes and indices as the normal build (when there is no minimum quality or the input has at most 256 colors).",
  ["inputs", "configurations"], "all color lists of 1-2048 colors, speeds, dither levels",
  "The all-features test run pushes 1000 colors into an internal array only.",
  ["src/pal.rs", "src/remap.rs", "src/nearest.rs", "src/hist.rs"],
  [("index width check", "src/remap.rs remap_to_palette/remap_to_palette_floyd"), ("MAX_COLORS", "src/pal.rs")],
  observe=["palette()", "remapped()"])

p("C23", "Log callbacks report every operation and are flushed",
  "Log messages go to the callback of the attributes object in use, with that object as argument, and a flush callback follows the last message at the latest when a callback is replaced or the object is destroyed. Every quantization and every refused gamma is reported, with the same messages whatever happened to the object before, also through copies and from several threads. "
  "Callbacks are never invoked after being replaced, cleared (C API: NULL) or after the object's destruction, their closures are dropped when no object uses them, and logging never changes results.",
  ["histories"], "all sequences of setting, replacing and clearing callbacks, quantizing, copying and destroying attributes, Rust and C",
  "One test checks that the callback has been called.",
  ["src/attr.rs", "imagequant-sys/src/ffi.rs"],
  [("verbose_print/flush", "src/attr.rs"), ("C trampoline", "imagequant-sys/src/ffi.rs attr_to_liq_attr_ptr")],
  observe=["log callback", "flush callback"])

p("C24", "Generated palettes are as good as a reference quantizer",
  "On average over varied color distributions, the palette's weighted perceptual error, computed independently, is not worse than that of a plain reference variance-cut/k-means quantizer with the same number of colors by more than a constant factor that depends only on the speed, the number of colors and the kind of distribution, and for colors spread evenly over the space the same holds for every single input. "
  "For colors not in tight clusters, a limit at least twice as large never makes the error noticeably worse, and distinct well separated color groups each get palette entries of their own when the limit is several times the number of groups.",
  ["inputs", "configurations"], "all images and histograms from generated color distributions (clusters, gradients, noise, rare outliers, alpha), color limits and speeds",
  "Tests assert fixed error numbers for one or two images.",
  ["src/mediancut.rs", "src/kmeans.rs", "src/quant.rs", "src/hist.rs"],
  [("median cut", "src/mediancut.rs"), ("k-means", "src/kmeans.rs"), ("feedback loop", "src/quant.rs find_best_palette")],
  observe=["palette()", "quantization_error()"])

p("C25", "The Java binding gives what the library gives and is memory safe",
  "For every BufferedImage (any type it supports, parts of larger images, any size and content) and any settings, the org.pngquant classes return the very palette and pixels that the library computes for those pixels, the returned image's palette being the one it was remapped to; setters return true exactly for the values the library accepts, getters return the library's numbers, and failures are reported as null, false or an exception. "
  "The caller's BufferedImage is never modified and later changes to it do not affect the Image made from it. Objects may be closed in any order and repeatedly, or left to the garbage collector, which may run at any moment, without a crash, and all native memory is released in the end.",
  ["inputs", "histories", "schedules"], "all sequences of calls on PngQuant, Image and Result objects, BufferedImage types and sub-images, and moments of garbage collection",
  "The Java binding has no tests at all.",
  ["imagequant-sys/org/pngquant/PngQuant.c", "imagequant-sys/org/pngquant/PngQuant.java", "imagequant-sys/org/pngquant/Image.java", "imagequant-sys/org/pngquant/Result.java"],
  [("pixel conversion", "PngQuant.c convert_bgr/convert_abgr; Image.java handleFromImage"), ("palette and pixels", "PngQuant.c liq_write_remapped_image; Result.java getRemapped"), ("ownership", "LiqObject.java, close() and finalize()")],
  observe=["PngQuant.getRemapped", "Result.getRemapped", "Image", "process exit"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
