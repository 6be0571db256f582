MT, MH, AI, MO = "basicmath/src/mt_mat.cpp", "basicmath/include/mt_mat.h", "basicmath/src/mt_array_iteration.cpp", "basicmath/src/mt_mat_math_operation.cpp"
WM = "Matrix code branches on depth, channel count, dimension count, step signs and continuity; the repository's matrix tests use one or two shapes and default contiguous mats."
TM = "basicmath is compiled from source to LLVM IR and executed symbolically, a concrete replay of sampled paths is compared with the compiled library."
prop("B01", "Views of a matrix address exactly the elements they stand for",
 "For every mat and every chain of view operations (sub-ranges, rows, columns, planes, index, rectangle, flips, dimension swap, channel ranges, adding, removing, splitting and combining dimensions, reshaping, channel/dimension exchange, strided sub-mats, copies) the result has the documented sizes, and each of its indexes and channels denotes the documented element of the original: all accessors, index/element/memory-block iterators, get_index, memory_data and the continuity and step queries agree with that. Views share memory (only operations that reorganise a non-contiguous layout may copy), writing one element through a view changes that element of the original and nothing else, the reference count is the number of live views, and the memory is released exactly with the last of them.",
 ["inputs", "histories", "configurations"], "All element positions, ranges, dimensions and chains of up to two view operations over 1- to 6-dimensional shapes with several depths and channel counts.", WM, [MT, MH, AI], [("view construction", MT + " sub, flip, swap_dim, split_dim, combine_dim, reshape"), ("element iterators", AI)], "An independent model maps each (index, channel) of the view to a scalar of the original; element positions stay symbolic in the accessor and write-through assertions. " + TM)
prop("B02", "Element operations touch every element of a mat and nothing else",
 "For a non-empty mat in any memory layout (contiguous, flipped, transposed, sub-range, channel range, strided) and any depth: set(mat) and convert write every element of the destination with the C conversion of the source element at the same index and channel; filling with a value, mt_scalar, array or vector writes it to every element; get and set at an index read and write the channels of that element. Scalars outside the mat, other elements and the source stay unchanged. clone, copy_from, convert, split_channels, create, the constructors with values or external data, set_incremental and set_eye produce mats of the documented shape and contents that own (or, for external data, share) their memory as documented. operator==, != and is_zero answer by comparing all elements and the shape; the size, type, count and sharing queries describe the mat. Values must be representable in the destination depth.",
 ["inputs", "configurations"], "All element values (symbolic bytes) and positions, all pairs of the ten depths, eight memory layouts, shapes of one to five dimensions, one to five channels.", WM, [MT, MH, AI], [("fill and copy", MT + " set, convert"), ("comparison", MT + " operator==, is_zero"), ("constructors", MT + " create, mt_mat")], "The expected bytes are computed by an independent model of the layout and the C conversion; the solver compares every byte of the underlying memory. Float comparisons use the library's documented tolerance. Empty mats are outside the statement. " + TM)
prop("B03", "Element-wise arithmetic computes every element and only the result",
 "For non-empty mats of equal shape in any memory layout, +, -, *, / of two mats, of a mat with a double, mt_scalar or per-channel vector, and of a double with a mat give a new mat of the same shape whose element at each index and channel is the C operation of that depth on the operands' elements (values first converted to the depth); the compound forms update exactly the elements of their mat, also when it is its own operand. Unary minus, abs, exp, log, pow and their self_ forms apply the function to each element; add_bias, substract_bias, mul_bias and div_bias apply a bias whose sizes divide the mat's, periodically; element_compared_mask (with a mat of any depth, or an empty mat standing for zeros) marks each element by its own comparison; expand puts the mat inside a border of the given value. Operands are unchanged, results share no memory with them, and temporary memory is released.",
 ["inputs", "configurations"], "All element values (symbolic bytes) and all scalars the depth can represent, ten depths (biases: up to 32-bit integers and floats), eight memory layouts per operand, shapes of one to five dimensions, one to five channels.", WM, [MO, MT, "basicmath/src/mt_mat_helper.cpp"], [("element operations", MO + " mat_operation, operation_bias"), ("masks", MO + " element_compared_mask"), ("expand", MO + " expand")], "Both sides are terms over the same symbolic bytes; exp, log and pow are uninterpreted functions, so the assertion is about which element they are applied to; for integer depths they use small concrete values. Integer division by zero and INT_MIN / -1 are excluded. " + TM)
PO, MHL = "basicmath/src/mt_pooling.cpp", "basicmath/src/mt_mat_helper.cpp"
prop("B04", "Pooling and unpooling follow their windows and masks",
 "For a non-empty mat of any depth, memory layout, dimension and channel count, with positive kernel sizes and strides: windows start at every multiple of the stride inside the mat up to the first one that reaches the end (get_pooling_result_size counts them), and each element and channel of pooling's result is the mean, maximum, minimum or sum of its window clipped to the mat, or its first element, or, for index pooling, the element the mask names. Max and min pooling also return an int32 mask of the result's shape that holds, per channel, the row-major index in the source of the first extreme element. unpooling (mean, max, min, index, first value) returns a mat of the given source size, zero except that each element adds its value to the source element named by the mask, its first element, or its share to every element of its clipped window; overlapping windows accumulate. Operands stay unchanged and results own their memory.",
 ["inputs", "configurations"], "All element values (sums that fit the depth, floats other than NaN), ten depths, shapes of one to five dimensions up to 2x3, kernels up to one more than the size, strides up to three, one to three channels, source and mask layouts.", WM, [PO, MHL], [("pooling per dimension and channel count", PO + " pooling, unpooling"), ("result size", MHL + " get_pooling_result_size")], "The expected result is computed by an independent model over the same symbolic bytes. Integer sums must fit the depth; sum unpooling is outside the statement. " + TM)
prop("B05", "Reductions, activation functions and losses fold the right elements",
 "For a non-empty mat in any memory layout: reduce(type, dim) has size 1 in the reduced dimension (in all dimensions when none is given; one channel when reducing over channels) and each of its elements is the sum, mean, maximum, minimum or, for float depths, variance or standard deviation (unbiased forms divide by n - 1) of exactly the source elements with the same remaining indexes and channel. For float mats, activate applies sigmoid, linear, tanh (alpha, beta or the defaults) or relu (negative slope or 0) to each element, or softmax to each row of a 2-D one-channel mat; self_activate writes the same values into the mat itself and nothing else. loss returns a 1 x 1 mat with, per channel, half the sum of squared differences to the matching mat (quadratic; entries whose matching value is not a finite number are skipped) or, for one-hot or 0/1 rows, minus the sum of the logarithms (logarithmic; rows starting with such a value are skipped). Operands stay unchanged.",
 ["inputs", "configurations"], "All element values other than NaN (integer sums that fit the depth), all depths for sum, mean, maximum and minimum, float depths otherwise, shapes of one to five dimensions, one to five channels, eight memory layouts.", WM, [MO], [("reduce", MO + " reduce"), ("activation", MO + " activate, sigmoid, softmax"), ("loss", MO + " quardratic_loss, logarithmic_loss")], "Float results are compared bit for bit with the same fold in row-major order; exp, log, tanh and pow are uninterpreted functions. The 0-1 loss is not implemented and outside the statement. " + TM)
prop("B06", "Lists of mats merge and combine in order",
 "For a list of mats of equal depth (and equal sizes except, for merge_align_dim, along the merged dimension; equal channels except for merge_align_channel) in any memory layout: merge_align_dim returns a mat whose size along the dimension is the sum of theirs and which holds them one after the other; merge_align_channel returns a mat whose channels are their channels in order; add and dot return their element-wise sum and product; clone fills a list with deep copies. An empty list gives an empty mat, a list of one mat may share memory with the result only when the caller allows it, and otherwise the result has memory of its own and the operands stay unchanged.",
 ["inputs", "configurations"], "All element values (symbolic bytes), lists of up to three mats of one to five dimensions and one to five channels, ten depths, eight memory layouts.", WM, [MHL], [("merging", MHL + " merge_align_dim, merge_align_channel"), ("sum and product", MHL + " add, dot")], "Auto-derivative recording is off. " + TM)
HE, SO, TK, DP = "basicmath/include/mt_helper.h", "basicmath/include/mt_sort.h", "basicmath/include/mt_top_k.h", "basicmath/include/dynamic_programming/"
prop("B07", "Sorting and selection order, keep and pick exactly the given elements",
 "For every vector: mt_sort::bubble_sort, heap_sort and sort (with indexes) return the same elements ordered in the asked direction, sort also the original index of each; init_heap puts every parent before its children. mt_top_k keeps the min(k, n) best of the n values traversed, for k of zero or more, and get_sorted_top_k lists them best first. The helpers of mt_helper agree with their meaning: lower median with and without changing the order, minimum and maximum and the index of the first one, smallest magnitude, reversal, sub-vector and array copies, pointers and instances, odd-even partition (stable when asked, negative numbers included), sum, product, prefix sums, comparison of every pair of integers of any width and sign.",
 ["inputs"], "All element values (symbolic) of vectors of up to five elements, integer types of 8 to 64 bits and float, both directions, all k up to n + 1.", "Ties, duplicates, negative numbers, unsigned types and short vectors decide these algorithms; the tests sort one permutation of 0..99.", [HE, SO, TK], [("sorting", SO + " sort, heap_sort, heap_adjust"), ("top k", TK + " traverse"), ("helpers", HE)], "std::sort of built-in types is modelled by an insertion sort; NaN is excluded. " + TM)
prop("B08", "Dynamic programming and number helpers return the optimum they name",
 "mt_01_bag returns the largest value of any subset of the elements whose weights fit the capacity, and its flags select a subset that fits and has that value. mt_longest_common_substring returns the length of the longest run common to both sequences and a begin index in each where it occurs, and lists the begin indexes of every such run. mt_max_sum_for_continuous_element returns the largest sum over non-empty ranges and a range that has it. index_from_multi_index and multi_index_from_index are inverse. number_of_1, reverse_i32, is_nan, is_infinity, is_number, neibour_float, combination, factorial, valid_range of bytes, one_number and the split into the sub arrays of largest mean difference agree with their mathematical meaning; compare_float and compare_double find equal numbers equal (infinities included), tell small whole numbers apart and are antisymmetric.",
 ["inputs"], "All weights up to 3, values up to 15 and capacities up to 6 for up to three elements; all sequences of up to 4 x 2 and 3 x 3 elements; all 8-bit values for ranges of up to four elements; all bit patterns for the bit and float predicates; n and k up to 16.", "Optimality is a claim over all subsets, runs and ranges; the tests try two bags and print the rest.", [HE, "basicmath/src/mt_helper.cpp", DP + "mt_01_bag.h", DP + "mt_longest_common_substring.h", DP + "mt_max_sum_for_continuous_element.h"], [("bag", DP + "mt_01_bag.h calculate_value, detrermine_flag"), ("common run", DP + "mt_longest_common_substring.h"), ("largest sum", DP + "mt_max_sum_for_continuous_element.h")], "The values of compare_float within its tolerance are not specified beyond the statement. " + TM)
prop("B09", "Rectangles, points and ranges behave as sets of pixels",
 "For rects with at least one pixel, whose last pixel is (right, bottom): contain, boundary, is_intersect and its intersection, validate_point, validate_rect, the horizontal and vertical distances and the corners agree with membership of pixels; appending a point or rect gives the smallest rect around both (to an empty rect, just the appended one); adjust, expand, shrink, adding and subtracting points and sizes (in place or not), scaling by a point, set_rect, set_tl and set_size change exactly the numbers they name; areas, iou, the covered ratios, aspect and centre follow their definitions; equality compares all numbers; a range's size is the difference of its ends and the distance of two points is Euclidean.",
 ["inputs"], "All integer rects with coordinates and sizes within +-1000 (ratios: sizes up to 2; scaling: within +-200 by 1, 2, 4).", "Off-by-one errors at inclusive borders show only for particular relative positions; no test covers the class.", ["basicmath/include/mt_rect_t.h", "basicmath/include/mt_point_t.h", "basicmath/include/mt_size_t.h", "basicmath/include/mt_range_t.h"], [("sets", "basicmath/include/mt_rect_t.h contain, is_intersect, validate_point"), ("growth", "basicmath/include/mt_rect_t.h adjust_by_append_point, adjust_by_append_rect")], "Rects of negative size, in_boundary and linear_position are not specified. " + TM)
BM, MC = "basicmath/include/mt_block_memory.h", "basicmath/src/mt_mat_cache.cpp"
prop("B11", "Pooled memory hands out distinct, stable elements and gives them back",
 "mt_block_memory: for every block exponent from 0, with or without use of new, and every sequence of getting and adding elements, giving them back, reset, init and clear: at(i) and a visit return the added elements in the order they were added, an element keeps its address and content while others are added, a fresh element is none of those in use, an element given back (up to the reuse capacity) is handed out again before new memory is taken, in_block recognises exactly the elements that were handed out, memory_size covers them, reset and init start again empty, and clear or destruction gives all memory back. mt_mat_cache, used from one thread: get and get_as return a continuous mat of the shape and type asked for that shares memory with no mat or view in use, whose content nobody else changes while any reference to it lives, also when the cache's size limit shrinks or the cache is disabled; while enabled the memory of a dropped mat of the same shape and type is used again.",
 ["histories", "configurations"], "All sequences of three operations on block memory (thorough: four) and four on the cache (thorough: five), exponents 0 to 2, reuse capacities 0 to 2.", "The extractors draw every point, region and history entry from these pools; aliasing appears only after a block boundary, a reuse or a reset at the right moment. The tests never call the pools on their own.", [BM, MC], [("block memory", BM + " basicmath_block_memory_get, basicmath_block_memory_add, in_block, memory_size"), ("cache", MC + " get, statistic_memory, enable_cache")], "The operation sequence is symbolic, each feasible sequence is executed once; addresses are concrete within a path and the engine reports any access to released memory. Several threads using the cache are outside the statement. " + TM)
AD = "basicmath/src/mt_auto_derivative.cpp"
prop("B12", "Automatic derivatives are the derivatives of what was computed",
 "For every program of recorded operations (sums, differences, element-wise products and quotients of mats and with constants, sums and products of lists, biases, matrix products, valid convolutions with kernels in rows, powers, exponentials, logarithms, magnitudes, activations, losses, pooling, sub ranges, indexes, channel ranges, flips, expansion, strides, reshaping, repetition, merging along a dimension or channel, clone): derivative(target, src) has the shape of target and each element is the derivative of the sum of src's elements with respect to that element of target, also when an operand is used several times, target is an intermediate mat, derivatives were asked before, or more was computed since; derivatives of several sources add up, those for several targets are what each gives alone, a mat without part in src gives an empty mat. The derivative of the logarithmic loss is that through its sigmoid or softmax. Operations while the stage is not recording leave no trace; after reset a new computation is recorded; all memory is given back.",
 ["programs", "inputs", "configurations"], "All programs of one step over all operations and of two steps over groups of them (thorough: three), two leaves of up to 12 elements with one or two channels, all operands, targets and parameters in the harness's lists, cache sizes 1 and 30; integer values symbolic (8 bits, or 2 bits where products nest), real values two fixed sets.", "Which operand, how often it is used, and what was asked before select the code; the tests derive a handful of fixed expressions.", [AD, "basicmath/src/mt_auto_derivative_tree.cpp", "basicmath/include/mt_auto_derivative_tree.h"], [("accumulation", AD + " derivative"), ("rules", "basicmath/src/mt_auto_derivative_tree.cpp derivative of each node")], "Reference: forward-mode tangents over the recorded program, written in the harness. MKL is replaced by the stand-ins of B13. Outside: convolutions of other alignments, 64-bit quotients of constants by mats, split/combine and moves of dimensions, which the library does not derive. Programs are chosen symbolically and each feasible one is executed once; real values are fixed because exp, log and the quotients are not decidable over all doubles. " + TM)

prop("B13", "Matrix product and convolution compute the sums of products they name",
"For F32 and F64 mats in any memory layout, mul is the matrix product of every channel, and conv is the sum of products of the turned kernel with the windows of the mat, for the valid, full and same boundary, every stride and every alignment of kernel channels, whether the result is new, given, the source or the kernel; operands that are not the result stay unchanged, the predicted size of a convolution is its size, and its tasks and memory are released.",
["inputs", "configurations"], "All layouts, shapes, boundary types, strides, alignments and result targets.", WM, ["basicmath/src/ml_multiplication.cpp", "basicmath/src/mt_convolution.cpp"], [("product", "basicmath/src/ml_multiplication.cpp mt_mat::mul"), ("layout for MKL", "basicmath/src/ml_multiplication.cpp"), ("convolution", "basicmath/src/mt_convolution.cpp mt_mat::conv")],
"The real code compiled with -Dbasicsys_enable_mkl; MKL itself (cblas_*gemm, vsl*Conv*) is not installed and replaced by stand-ins that follow its documentation and check its preconditions, so MKL's own arithmetic is outside. Shapes, layouts, strides, boundaries, alignments and targets are chosen by the solver within 1-3 dimensions of up to 4, 1-3 and 17 channels; the elements are fixed and distinct. Their derivatives are decided in B12 (valid boundary, rows of kernels). " + TR)
