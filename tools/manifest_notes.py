G = "Randomised search with fixed work and a fixed seed; no proof of absence. Trusts the oracle written in harness/src/props and proptest's generators."
NOTES = {
 "C01": ("property-based testing (proptest): guard bytes, double pre-fill, validity predicate", G),
 "C02": ("property-based testing: exact round trip over generated color sets", G),
 "C03": ("property-based testing: differential against brute-force nearest color in an independent f64 metric", G + " Distances compared with tolerance 1e-5."),
 "C04": ("property-based testing: conservation invariant (area averages in linear working space) with calibrated bounds", G + " Bounds are calibrated on the current tree with a margin of at least 15%."),
 "C06": ("property-based testing: differential against an independent error computation and a best-effort run", G + " The error comparison is strict for inputs of 100 colors and more."),
 "C05": ("stateful property-based testing: generated histories of fixed colors, quantize, remap; presence/limit invariant", G),
 "C07": ("property-based testing: bit-replication invariant over every palette entry of generated jobs", G),
 "C08": ("property-based testing: ordering invariant over palettes of generated images", G),
 "C09": ("property-based testing: metamorphic (replacing zero-importance pixels) and closed-form position of shared entries", G),
 "C10": ("property-based testing: differential against an independent per-pixel background decision", G),
 "C11": ("property-based testing: differential between all pixel sources of one image", G),
 "C12": ("stateful property-based testing: generated addition histories against the set union, two orders/groupings, closed-form weighted position of shared entries", G),
 "C13": ("stateful property-based testing: generated setter/getter histories against a model of the documented ranges, Rust and C in lockstep", G),
 "C14": ("fault-injecting property-based testing: Break at each progress report of generated jobs, compared with the undisturbed job", G + " Every report index is tried for 1 case in 10 and whenever there are few reports; a sample otherwise."),
 "C15": ("property-based testing: differential between repetitions, interleaved and concurrent jobs, thread counts and builds (second process as peer)", G + " Schedules of rayon and of the concurrent jobs are sampled, not enumerated."),
 "C16": ("stateful property-based testing of the C API: recording free functions, balance of a counting allocator, AddressSanitizer", G),
 "C17": ("stateful property-based testing: generated histories executed in lockstep on the Rust API and on the C API as compiled from libimagequant.h; every function with NULL/foreign handles", G + " NULL for a reference parameter is exercised in the unoptimised build, because the optimiser may assume it away."),
 "C18": ("property-based fault injection: every image-sized allocation request of a generated job is failed in turn; outcome, later repetition and lossless output as oracle", G + " Within one job the single-failure space is enumerated completely; jobs are sampled. Requests are recognised by size (row or image multiples); tables of row pointers and the color hash table are not included."),
 "C19": ("stateful fuzzing of the Rust and C APIs with extreme arguments: debug assertions and overflow checks, AddressSanitizer and MemorySanitizer builds as oracle", G + " MemorySanitizer runs with std rebuilt; images larger than a few thousand pixels are created but not processed here (see C01-C04, C11)."),
 "C20": ("stateful property-based testing: generated histories of output gammas, palette reads, remaps and clones against the closed formula", G),
 "C21": ("stateful property-based testing: generated histories of reads, remaps of several images, setting changes, rejected calls, clones and moves, every output compared with a fresh computation", G),
 "C22": ("property-based testing of the large_palettes build: exactness and refusal against the input color list, differential testing against a process of the normal build", G),
 "C23": ("stateful property-based testing: generated histories over several Rust and C attributes objects against a model of which callback listens, messages compared with those of a new object", G),
 "C24": ("differential property-based testing against a reference quantizer (statistics of batches of 40 inputs, per-input bounds for evenly spread colors), metamorphic relation between color limits, separated groups", G + " The bounds were calibrated on the repaired tree with margins of about 10%; the search is a heuristic with no worst-case guarantee for tightly clustered colors, so those are judged by batch statistics only."),
 "C25": ("stateful property-based testing of the Java binding: generated call histories in a JVM, in lockstep with the Rust API; native blocks behind guard pages, counted objects; temporary objects under continuous garbage collection", G + " The moments of garbage collection are sampled. Image types whose conversion is lossy are judged by validity only."),
}
NA = {}
