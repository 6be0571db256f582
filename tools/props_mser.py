WHY = "The stable tests never link the MSER library: no extraction is run at all, and a demo image would sample a single configuration; the claim ranges over all images, thresholds and thread partitions."
TR = "Trusted: clang's lowering to LLVM IR at -O1 (strict IEEE, -fwrapv), the interpreter in engine/ (validated on every run by replaying sampled paths and every counterexample against an AddressSanitizer build of the same sources), z3, and the sequential OpenMP runtime model in lib/rt.cpp. "
prop("M01", "Reported regions are exactly the extremal regions of the image",
 "Every region an extractor reports is a maximal connected set of pixels at least as dark (or as bright) as its gray level, touching that level, reported with exactly those pixels, their count, their bounding rectangle and the level; and every such region that passes the size limits and is not the whole image is reported exactly once. This holds for each of the three component-tree extractors, for every number of threads they accept, for 4- and 8-connectivity and for any image size.",
 ["inputs", "configurations"], "All 8-bit gray images, minimum sizes, connectivities, and thread counts 1, 2, 4, 8, 16, 32.", WHY, [V1, V2, LK, HH, HP],
 [("flood fill per patch", V1 + " make_tree_patch"), ("patch tree merge", V1 + " merge_tree_parallel; " + V2 + " merge_tree"), ("pixel extraction", V1 + " extract_pixel; " + V2 + " extract_pixel"), ("linear component tree", LK)],
 "Decides, within stated image sizes (exhaustive small images over 2-3 gray levels and several palettes, symbolic windows placed on every patch border of larger images, 24x20, 270x5 and 4x1100 images with symbolic pixels) that the reported set equals a brute-force component tree. " + TR + "Diagonal neighbours across patch borders in parallel 8-connectivity are a recorded known finding.")
prop("M02", "Size, stability, suppression and duplicate rules select the right regions",
 "The reported regions are exactly those extremal regions whose size lies within the configured limits, whose area growth over delta gray levels does not exceed the stability limit, which are not suppressed by a neighbouring level that is more stable by more than the similarity threshold, and which survive the removal of near-duplicates along a branch. The decision is the same for every extractor and thread count and follows the documented arithmetic for every threshold value.",
 ["inputs", "configurations"], "All images, and all values of minimum size, maximum ratio, delta, maximum variation, similarity threshold and duplicate threshold.", WHY, [V1, V2, LK, HP],
 [("stability", V1 + " recognize_mser; " + V2 + " recognize_mser"), ("suppression", V1 + " recognize_mser_nms"), ("duplicates", V1 + " remove_duplicated_mser"), ("limits", HP + " set_min_max_point")],
 "All thresholds are symbolic (integers and IEEE floats, solved bit-precisely); images are exhaustive within small bounds plus 12x10 patterned images. " + TR)
prop("M03", "All extractors and thread counts agree with each other",
 "For the same image and the same parameters, every extractor reports the same multiset of regions (pixels, gray level, size, rectangle) as every other, whatever the number of threads and the partition of the image it implies.",
 ["inputs", "configurations"], "All images, parameters, and pairs of extractor configurations.", WHY, [V1, V2, LK], [("parallel partition", V1 + " init_msers; " + V2 + " init_msers"), ("merge", V1 + " merge_tree_parallel; " + V2 + " merge_tree")],
 "Relational check: two real extractors run on the same symbolic image and thresholds. " + TR)
prop("M04", "Parallel extraction gives the same result under every thread schedule",
 "The regions reported by a multi-threaded extraction do not depend on how the threads are interleaved: every schedule gives the result of the sequential order of its workers.",
 ["schedules", "inputs"], "All interleavings of the worker threads of each parallel phase, on all images.", "Tests run one uncontrolled schedule and never link the extractors; races show only in rare interleavings.", [V1, V2],
 [("OpenMP parallel loops", V1 + " extract_impl, merge_tree_parallel, extract_pixel_parallel; " + V2)],
 "Explores, as solver choices, every placement of one preemption at an access that conflicts with another worker (the conflicting accesses are collected from a first run of the same path), on images with a symbolic window; a data race that changes the result within one context switch is found. " + TR)
prop("M05", "Bright regions are the dark regions of the negative image",
 "Extracting dark regions from an image gives the same pixel sets as extracting bright regions from its negative, with complemented gray levels, and the reverse; each kind is reported only when it is enabled and is unaffected by whether the other is.",
 ["inputs", "configurations"], "All images, thresholds, extractors and enable combinations.", WHY, [V1, V2, LK], [("gray mask", V1 + " init_msers gray mask; " + V2 + "; " + LK)], "Exhaustive over 3x2 images with three gray levels for five configurations, solver deciding every comparison. " + TR)
prop("M06", "An extractor carries nothing over from earlier extractions",
 "Using one extractor for a sequence of images of different sizes, parameters or thread counts gives for each image exactly what a fresh extractor gives; the input image is never modified; and once the extractor and its results are destroyed all the memory they allocated is released.",
 ["histories", "inputs"], "All sequences of extractions.", WHY, [V1, V2, LK, "basicmath/include/mt_block_memory.h"], [("buffer reuse", V1 + " block memory; " + V2 + " m_memory_cache"), ("release", V1 + " free; " + V2 + " free; " + LK)],
 "Sequences of three to six extractions with different sizes and thread counts around a symbolic image; heap accounting is done by the engine. " + TR)
prop("M07", "Region lists can be copied, assigned and outlive their extractor",
 "A copy or assignment of a set of reported regions owns its own points: it stays equal to the original whatever happens to the original, to later extractions or to the extractor, modifying one never shows in the other, and destroying both releases everything once.",
 ["histories", "inputs"], "All sequences of copy, assignment, mutation and destruction of results.", WHY, [HP, HB], [("deep copies", HP + " img_mser, img_multi_msers")], "Every use-after-free, double free or leak on the copied results is an error of the symbolic memory model. " + TR)
prop("M08", "Extraction commutes with symmetries of the image",
 "Mirroring or transposing the image mirrors or transposes the reported regions; a sub-image view or other memory layout of the same pixels gives the same regions; adding a constant to all pixels shifts the gray levels only, and a strictly increasing gray transformation keeps the extremal regions.",
 ["inputs", "configurations"], "All images and these transformations, every extractor and thread count.", WHY, [V1, V2, LK], [("row/column traversal", V1 + " make_tree_patch"), ("row steps", V1 + " m_step use; " + V2)], "Relational checks, one symbolic transformation choice per image. " + TR)
prop("M09", "Masked extraction sees only the pixels the mask leaves active",
 "When the linear extractor is given a mask (a mask image, a masked gray value or an active rectangle), it reports exactly the extremal regions of the active pixels, and no reported region contains a masked pixel.",
 ["inputs", "configurations"], "All images, masks and minimum sizes, without stability filtering.", WHY, [LK, "basicimg/include/img_mser_base.h"], [("mask handling", LK + " init_pixels")], "Mask pixels, value and rectangle are symbolic choices. " + TR)
prop("M10", "Rendering a region draws exactly its pixels",
 "Drawing a reported region produces an image of its rectangle, centred in a square canvas, in which exactly the region's pixels carry the foreground colour, in gray and in colour; and the flat list of all regions refers to every region once.",
 ["inputs", "configurations"], "All regions of all images.", WHY, [HH], [("rendering", HH + " image_from_mser"), ("lists", HH + " shallow_copy_msers")], "Compared with the brute-force component tree for every reported region. " + TR)

OM, MM = "basicimg/src/img_origin_mser.cpp", "basicimg/src/img_ms_mser.cpp"
prop("M11", "The two older sequential extractors report the same regions",
 "The ms and the original extractor satisfy what is required of the fast ones: they report exactly the extremal regions that pass the size, stability, suppression and duplicate rules (the original extractor also reports the whole image, and with a mask exactly the regions of the active pixels), agree with the linear one, treat bright regions as dark regions of the negative, respect 4- and 8-connectivity and image views, keep nothing from earlier extractions, and their results can be copied and outlive them.",
 ["inputs", "configurations", "histories"], "All images, thresholds, connectivities, masks (original extractor) and histories.", WHY, [OM, MM, HP],
 [("flood and merge", MM + " build_tree; " + OM + " extractPass"), ("selection", MM + " recognize_mser_normal; " + OM + " recognize_mser"), ("masks", OM + " allocate_memory"), ("pixels", MM + " extract_pixel; " + OM + " extract_pixel")],
 "The harnesses of M01, M02, M03, M05-M09 applied to these two classes. The idiap, OpenCV and VLFeat ports that the repository carries for comparison define stability differently or do not report pixel sets and are outside. " + TR)
CCH, CCC = "basicimg/include/img_connected_component.h", "basicimg/src/img_connected_component.cpp"
prop("M12", "Connected components partition the foreground of an image",
 "The components found in an image are exactly the maximal 4- or 8-connected sets of pixels that differ from the background colour (or that a mask image, rectangle or value leaves active): every such pixel belongs to exactly one component, no other pixel to any, and each component carries its bounding rectangle; extracting from one start pixel gives the component around it. This holds for 1, 3 and 4 channels, for views of larger images and for images without foreground; drawing the components shows exactly their pixels in the requested channels, the picture of one component is its rectangle made square by equal borders with exactly its pixels, handed to scaling with the size asked for, and copies own their points.",
 ["inputs", "configurations"], "All 8-bit images, backgrounds, masks and start pixels.", "No test calls the connected-component code; an example image samples neither the masks, nor the channel counts, nor the row layouts.", [CCH, CCC],
 [("masks and border", CCH + " normal_extract_start"), ("flood fill", CCH + " basicimg_cc_n_begin"), ("copies", CCC + " operator ="), ("drawing", CCC + " image_from_connected_component")],
 "Exhaustive over pixel classes of images up to 3x2, all masks and rectangles. Scaling itself is OpenCV's and replaced by a stand-in that returns its input. " + TR)

CA = "basicimg/src/img_canny.cpp"
prop("M14", "Canny edges are the suppressed maxima connected to strong ones",
"Given gradients and magnitudes, the Canny detector marks 255 exactly at the pixels whose magnitude exceeds the low threshold, is a maximum along the gradient's direction (one of four sectors with borders at 22.5 and 67.5 degrees) and that are 8-connected through such pixels to one whose magnitude exceeds the high threshold; all others are 0. It computes exactly the gradients that were not given, with the aperture and norm asked for, leaves the given ones as they are, and a reused detector, with or without its memory cache, answers as a fresh one and releases its memory.",
["inputs", "histories", "configurations"], "All magnitudes and gradient directions, thresholds, given or missing gradients and earlier uses.", "No test that runs here calls the edge detector; one picture samples neither the sector borders nor ties nor the reuse of its buffers.", [CA, "basicimg/include/img_canny.h"],
[("suppression and hysteresis", CA + " canny_impl"), ("gradients", CA + " edge_detection"), ("buffers", CA + " clear_memory_cache")],
"Exhaustive over levels and twelve directions to 3x2 and 2x2, symbolic gradients within +-200 for the middle pixel of 3x3, images of 66x66 with one chosen pixel. Sobel and the magnitude are OpenCV's or img_img's and replaced by stand-ins that record what is asked for. " + TR)
prop("M13", "Images are read, scaled and filtered without changing what is not asked for",
 "Loading, saving, scaling, converting and filtering images keep sizes, channels and values as the operation defines.",
 ["inputs"], "All images.", "No test loads an image.", ["basicimg/src/img_img.cpp"], [("OpenCV calls", "basicimg/src/img_img.cpp")],
 na="img_img passes the work to OpenCV, whose sources and libraries are not in the repository or the sandbox (the build uses declarations only), so the code that decides the results cannot be encoded.")
