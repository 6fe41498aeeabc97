COMMON = " Trusts clang's front end, the executor (its witnesses are validated natively) and Z3; bounds are listed in the evidence file, larger sizes are not covered."
prop("P01", "Scalar indexing is row-major, reverse-aware and bounds-checked",
 "For a vector of any dimensions and any integer index type, v[i] and v(i,j,...) designate the row-major element, negative indices counting from the end of the dimension; an index at or past the end stops the program with an error instead of returning. Unchecked access designates the same element for every in-range index, and reads or writes through one index never touch another element.",
 ["inputs"], "all 64-bit (and 8/16/32-bit, signed and unsigned) index values and all element values, 1-D to 4-D vectors",
 "unit tests index a handful of positions; out-of-range behaviour ends the process so it is barely tested, and narrow or huge indices not at all",
 [V, A], [("to_idx / bounds check", A), ("operator[] / operator()", V)], "All index and element values for the listed shapes." + COMMON)
prop("P02", "A vector's size, dimensions and contents stay consistent through any history",
 "After any sequence of construction, copy, move, assignment, resize, push_back, reserve, clear and conversion, the number of elements equals the product of the dimensions, copies are independent, new elements are zero, resizing a 1-D vector keeps the common prefix, a moved-from vector is empty, and push_back of a wrongly shaped row stops the program. No such sequence reads or writes outside the vector's storage.",
 ["inputs", "histories"], "all element values, all short sequences of container operations chosen symbolically",
 "tests perform one fixed sequence per operation; consistency is a property of all histories",
 [V], [("constructors, assignment, resize, push_back", V)], "All histories of up to 3 (quick) or 4 (thorough) operations on small vectors." + COMMON)
prop("P03", "Views designate exactly the selected elements and never reach out of bounds",
 "Indexing with a vector of indices, a range (_, first-_, _-last, first-_-last), or any mixture per dimension gives a view whose k-th element is the k-th selected element of the original (same storage), with the dimensions of the selection; writing through it changes those elements and no other. A selection reaching past the end of a dimension, or assignment from a vector of another size, stops the program.",
 ["inputs"], "all index vectors and range bounds over the full integer range, all element values, 1-D to 3-D",
 "tests use a few literal selections; aliasing of arbitrary index lists and rejected ranges need all values",
 [V, A, R], [("view construction", A), ("range bounds check", R)], "All index values and range bounds for small shapes." + COMMON)
prop("P04", "Assignment between overlapping views behaves as if the right side was read first",
 "For every combination of views (mutable, const, nested, strided, permuted) of one vector on both sides of =, +=, -=, *=, /=, and for scalars taken from the vector being modified, the result is the one obtained by first evaluating the right-hand side completely and then assigning element by element. No element is read after having been overwritten by the same statement.",
 ["inputs", "programs"], "all index lists on both sides, all element values",
 "overlap patterns are combinatorial; tests try a few non-overlapping or fixed ones",
 [V, A], [("view_same aliasing detection", V)], "All index lists of up to 3 entries over 3-4 elements." + COMMON)
prop("P05", "Element-wise operators act on each element and reject mismatched dimensions",
 "Arithmetic, comparison and logical operators between vectors, views and scalars (both operand orders, const, temporary and mixed numeric types) return a vector of the operands' dimensions whose every element is the scalar operation applied to the corresponding elements, leaving the operands unchanged. Operands of different dimensions stop the program, except where a scalar is broadcast.",
 ["inputs"], "all element values including NaN and wrap-around, all operand kinds, sizes 0-3",
 "tests check a few literal vectors per operator; temporaries reuse storage so each operand kind is a separate code path",
 [V, OP], [("operator templates and temporary reuse", OP)], "All element values per operator and operand kind." + COMMON)
prop("P06", "Reshaping functions move elements without altering them",
 "reverse, shift, transpose, flatten, reform and replicate return exactly the input's elements at the documented positions with the documented dimensions (shift by any amount is circular, transpose is an involution, reform to another number of elements stops the program), for empty inputs too; views stay views of the original storage. mult_ids and flat_id are mutually inverse row-major conversions, out-of-range positions stop the program, and increment_index_list visits all index tuples in row-major order.",
 ["inputs"], "all element values and shift amounts, all small shapes including empty ones",
 "tests use one or two literal shapes",
 [G+"generic-rearrange.hpp", G+"generic-dims.hpp", G+"generic-indices.hpp", G+"generic-sequences.hpp"], [("reverse/shift/transpose/replicate", G+"generic-rearrange.hpp"), ("flatten/reform", G+"generic-dims.hpp")], "All values, shapes up to 3x3/3x2x2." + COMMON)
prop("P07", "Sorting returns a stable, complete, NaN-last ordering",
 "sort(v) returns a permutation of 0..n-1 under which the values are non-decreasing, equal values keep their original order, and NaN values come last; inplace_sort(v) leaves the same values in that order, and the versions with a comparator do the same for the given order. is_sorted(v) is true exactly when the values are in that order.",
 ["inputs"], "all values (any bit pattern of int, float, double; strings, bool), sizes up to 4, ties in larger vectors",
 "ordering, stability and NaN placement quantify over all inputs; tests sort a few literals",
 [G+"generic-rearrange.hpp", "include/vif/core/bits/helpers.hpp"], [("strict_comparator_less", "include/vif/core/bits/helpers.hpp"), ("sort/inplace_sort", G+"generic-rearrange.hpp")], "All values for n<=3 (4 thorough), n=20/40 with free keys." + COMMON)
prop("P08", "append, prepend and remove keep exactly the right elements",
 "append/prepend along any dimension give the concatenation of both vectors and stop the program when the other dimensions differ, also when the second vector is (a view of) the first; remove and inplace_remove keep exactly the rows whose index is not listed, in order, and stop the program on an index past the first dimension or listed twice. Dimensions always match the data afterwards.",
 ["inputs"], "all index lists and element values, small shapes, self-aliasing arguments",
 "tests cover a few literal calls; duplicates, invalid rows and aliasing are untested",
 [G+"generic-rearrange.hpp"], [("append/prepend/inplace_remove", G+"generic-rearrange.hpp")], "All index lists up to 3 (4 thorough) entries." + COMMON)
prop("P09", "where, complement and unique select exactly the matching indices",
 "where returns all and only the flat indices of true elements in increasing order, where_first/where_last the first/last of them or npos, and complement all and only the indices absent from a set of distinct indices (an index past the end stops the program). unique_ids and its sorted/presorted variants return the index of the first occurrence of each distinct value, ordered by value, and unique_values the corresponding values.",
 ["inputs"], "all boolean masks and all element values up to the stated sizes",
 "tests use single literal vectors",
 [G+"generic-find.hpp"], [("where/complement/unique_ids", G+"generic-find.hpp")], "All masks up to 5 (9 thorough) elements, all values up to 3-4 elements." + COMMON)
prop("P10", "Cross-matching and set operations are exact",
 "match(v1,v2) reports, for each element of v1 in order, the first equal element of v2 and nothing else, whatever the sizes of the vectors; is_any_of is true exactly for values present in the other vector. set_intersection and set_union (and their presorted versions) return sorted vectors in which each value occurs the minimum, respectively maximum, of its multiplicities in the inputs; NaN equals nothing.",
 ["inputs"], "all element values for small vectors, and the algorithm used from 64 elements on with free elements",
 "the large-input algorithm and duplicates are not reached by the tests",
 [G+"generic-find.hpp"], [("match", G+"generic-find.hpp"), ("set_intersection/set_union", G+"generic-find.hpp")], "All values for sizes up to 3x3; 63-70 elements with 2-4 free elements for the large-size algorithm (the concrete remainder is fixed)." + COMMON)
prop("P11", "Binary searches and nearest-cell search return the documented position",
 "In a sorted vector without NaN, lower_bound is the last element not greater than x, upper_bound the first greater than x, bounds both of them (also for an interval), and equal_range the first and last element equal to x, each npos when there is none. astar_find returns true exactly when the map has a true cell, and then a true cell reachable in the fewest horizontal/vertical steps from the starting cell (clamped to the map).",
 ["inputs"], "all sorted vectors of the stated sizes and all probes; all boolean maps up to 3x3 and all starts",
 "tests probe a few values of one vector",
 [G+"generic-find.hpp"], [("lower_bound/upper_bound/bounds/equal_range", G+"generic-find.hpp"), ("astar_find", G+"generic-find.hpp")], "All values for sizes up to 5 (8 thorough), maps up to 3x3." + COMMON)
prop("P12", "Minima, maxima, medians and percentiles are the exact order statistics",
 "min/max/minmax and their *_id variants return the smallest/largest non-NaN value and its position (NaN, position 0, if there is none), min/max of two operands act element by element, and an empty vector stops the program. median, inplace_median, percentile and percentiles return the value at the documented rank (n/2, floor(n*p) clamped) among the non-NaN values, do not modify their argument unless inplace, and never pick a NaN when a number exists.",
 ["inputs"], "all element values (any bit pattern incl. NaN and infinities) up to the stated sizes, all ranks",
 "order statistics quantify over all orderings, ties and NaN positions; tests use single literals",
 [M+"reduce.hpp"], [("min/max/minmax, median/percentile", M+"reduce.hpp")], "All values for n<=3-4, small values with NaN for larger n." + COMMON)
prop("P13", "Sums, means and reductions along a dimension cover each element once",
 "total, count, mean, weighted_mean, optimal_mean, fraction_of, rms, stddev and mad return the statistic of exactly the elements given, integer totals not overflowing the element type and integer means not truncated; weights of another size stop the program. partial_* , reduce and run_dim apply the same statistic to every 1-D slice along the chosen dimension, in row-major order, with the remaining dimensions; an invalid dimension stops the program. sigma_clip flags exactly the elements within sigma scaled MADs of the median.",
 ["inputs"], "all integer elements, small exact floating-point values, every dimension of 2-D and 3-D vectors",
 "slice arithmetic and integer widths quantify over shapes and values; tests use single literals",
 [M+"reduce.hpp"], [("total/mean/partial_*/reduce/run_dim", M+"reduce.hpp")], "Shapes 2x3, 2x3x2; floating point limited to small exact values." + COMMON)
prop("P14", "Interpolation and integration reproduce the tabulated function",
 "interpolate returns the straight line through the two neighbouring points (first/last segment beyond the ends), with the quadratically propagated error; bilinear, bilinear_strict, rebin and bicubic_strict the corresponding surface (default value outside for the strict ones), and interpolate_3spline the natural cubic spline through the points. integrate, integrate_hinted and cumul return the trapezoidal or binned integral over exactly the requested range, each partial segment included once. Inconsistent, empty or uncovered inputs stop the program, and no call reads outside the tables.",
 ["inputs"], "all ordinates and positions on a non-uniform grid within the stated bounds, inside, on and outside the nodes",
 "segment selection and partial ends depend on where every position falls relative to every node; tests probe a few",
 [M+"interpolate.hpp", M+"reduce.hpp"], [("interpolate/bilinear/3spline", M+"interpolate.hpp"), ("integrate/cumul", M+"reduce.hpp")], "Exact dyadic arithmetic on tables of 2-4 (5) points; splines on values -1..1 within 1e-9." + COMMON)
prop("P15", "Histograms count each value exactly once in its half-open bin",
 "histogram, its weighted and callback forms and histogram2d attribute each element to the bin whose half-open interval contains it and to no other, ignoring elements outside all (disjoint) bins and NaN, and leave the data unchanged; incompatible dimensions stop the program. make_bins and its variants give contiguous bins with the documented edges, in_bin/in_bin_open test membership (outer bins unbounded for the latter), and cumul/cumul_reverse give the running sums from the first/last element.",
 ["inputs"], "all data values and bin edges for up to 3-4 points and 3 bins",
 "edge values, NaN and bin order quantify over all inputs; tests use a few literals",
 [M+"histogram.hpp"], [("histogram/histogram2d/make_bins/in_bin", M+"histogram.hpp")], "All values for up to 3 (4 thorough) data points." + COMMON)
prop("P16", "Vectorized functions and generated ranges act on each element exactly once",
 "Math functions, clamp, sign, is_finite, is_nan and vectorized lambdas applied to a vector, temporary or view return for each element what the scalar function returns for it, leave the operands unchanged, give every call the same extra arguments, and stop the program on vectors of different dimensions. range() visits exactly the announced integers for every integer type, in order; rgen, rgen_log and rgen_step give evenly spaced values containing the end points and reject invalid steps.",
 ["inputs"], "all element values (any bit pattern), all start values of ranges in every integer type",
 "tests call each function on one literal vector; narrow types, temporaries and moved arguments are not tried",
 [M+"base.hpp", R, "include/vif/core/bits/vectorize.hpp"], [("VIF_VECTORIZE, vectorize_lambda", "include/vif/core/bits/vectorize.hpp"), ("range", R), ("rgen*", M+"base.hpp")], "Vectors of up to 3 elements, ranges of up to 5 iterations." + COMMON)
SF = "include/vif/utility/bits/"
prop("P17", "String searching and editing act on exactly the matching characters",
 "find returns the first occurrence or npos; replace substitutes every occurrence from left to right, never rescanning the replacement, and leaves the rest unchanged; trim strips exactly the leading and trailing characters of the set; begins_with, ends_with, keep_first/last, erase_begin/end and distance depend only on the characters at the ends, erase_* with a pattern stopping the program when the string does not have it. get_word, replace_block and replace_blocks isolate exactly the delimited words/blocks (several blocks with several components each), reject missing words or unterminated blocks, and every call terminates, for empty strings and patterns too.",
 ["inputs"], "all strings of arbitrary bytes up to the stated lengths, all patterns and replacements",
 "there are no tests of the string functions; overlaps, empty patterns and repeated blocks quantify over all strings",
 [SF+"string-find-replace.hpp", SF+"string-base.hpp"], [("replace/trim/get_word/replace_blocks", SF+"string-find-replace.hpp"), ("keep/distance", SF+"string-base.hpp")], "Strings up to 4-5 arbitrary bytes, words and blocks up to 6-7 characters of a 3-4 letter alphabet." + COMMON)
prop("P18", "Splitting, cutting, wrapping and aligning lose no character",
 "split gives the pieces between successive occurrences of the separator, so that collapse with the same separator returns the original string; split_any_of gives exactly the maximal runs of other characters; cut gives pieces of exactly n characters (the last may be shorter) that concatenate to the original. wrap breaks lines only between words and only where the next word does not fit, keeps every word in order, indents continuation lines, keeps lines within the width unless a single word exceeds it (or truncates that word with an ellipsis when asked); align_* pad to the width on the right side(s), and to_upper/to_lower change letters only.",
 ["inputs"], "all strings up to the stated lengths, all separators, widths and indents",
 "there are no tests of these functions; word boundaries and remainders quantify over all strings",
 [SF+"string-split.hpp", SF+"string-format.hpp"], [("split/cut/wrap/collapse", SF+"string-split.hpp"), ("align/case", SF+"string-format.hpp")], "Strings up to 4-6 arbitrary bytes; wrap up to 8 characters (letters and spaces), widths up to 6." + COMMON)
prop("P19", "Parallel execution performs every task exactly once under any schedule",
 "parallel_for::execute calls the function exactly once for each index of the requested range and for no other index, for any number of workers (zero included), chunk size and starting index, and returns only when all calls are done. The lock-free queue delivers each pushed element once, in order, between one producer and one consumer; worker and worker_pool run every submitted job exactly once (worker in order, a pool job on its worker with that worker's own workspace) before wait/join/destruction returns. No interleaving deadlocks, races on data, loses a job or touches freed memory.",
 ["schedules", "inputs"], "all interleavings of the synchronisation operations within the preemption bound",
 "tests contain no threads; lost jobs and out-of-range indices appear only for particular schedules or worker counts",
 [SF+"thread-parallel-for.hpp", SF+"thread-queue.hpp", SF+"thread-worker.hpp", SF+"thread-worker-pool.hpp", SF+"thread-thread.hpp"], [("parallel_for::execute/query_chunk", SF+"thread-parallel-for.hpp"), ("lock_free_queue", SF+"thread-queue.hpp"), ("worker, worker_pool", SF+"thread-worker-pool.hpp")], "Up to 3 threads plus the main one, 2-3 preemptions at synchronisation operations, sequentially consistent memory; counterexample schedules are replayed on real threads." + COMMON)
FS = "include/vif/io/filesystem.hpp"
prop("P20", "Path functions and directory operations follow the documented file-system conventions",
 "get_basename and get_directory agree with basename and dirname (the latter ending with a slash) for every path, trailing and repeated slashes included; get_extension, remove_extension and split_extension cut at the last dot; directorize appends exactly the missing slash and is_absolute_path tests the leading one. mkdir creates each missing parent once, outermost first, and is true exactly when all exist afterwards; list_files and list_directories return the visible matching entries of the right kind; explorer never leaves a directory open or closes one twice; is_older compares modification times and is false when a file is missing.",
 ["inputs", "histories", "fault_sequences"], "all paths up to the stated length, all directory contents and outcomes of the system calls, all sequences of explorer operations",
 "there are no tests of these functions; corner cases of paths and failing system calls quantify over all inputs and outcomes",
 [FS], [("path functions, mkdir, explorer", FS)], "System calls are replaced by stand-ins with symbolic outcomes; paths up to 6 (8) characters over {a, ., /, space}." + COMMON)
MX = "include/vif/math/bits/matrix-"
prop("P21", "Matrix algebra, solvers and decompositions agree with linear algebra",
 "For matrices, wrapped vectors and vectors of compatible dimensions, products are the sums over the inner index of the products of the elements, sums, differences and products or divisions by a scalar act element by element, in place or not, leave their operands unchanged, and any incompatible dimensions stop the program. transpose, diagonal (readable and assignable), as_diagonal, make_identity, make_scale, make_translation and inplace_symmetrize (lower half copied onto the upper one) place every element where linear algebra says. For a regular square matrix, with rows in any order, the LU and (symmetric positive definite) Cholesky decompositions succeed and determinant, solve and invert, with or without pivoting and in place or not, satisfy A*solve(A,b) = b and A*inverse = 1 whenever no rounding is involved; singular or not positive definite matrices are reported by the return value, and a decomposition object can be used again.",
 ["inputs"], "all element values, all row orders and pivots within the stated bounds",
 "the tests invert two literal matrices; pivoting, singular input and operand kinds quantify over all matrices",
 [MX+"types.hpp", MX+"functions.hpp"], [("operator*, mat, wrapper", MX+"types.hpp"), ("decompose_lu, decompose_cholesky, invert, solve, determinant", MX+"functions.hpp")], "Matrices up to 3x3; factorisations of products of small exact factors, for which no rounding occurs; the variant without LAPACK." + COMMON)
prop("P22", "Linear fits return the exact weighted least-squares solution",
 "For data with errors and linearly independent models, linfit, linfit_pack and the batch forms succeed and return the parameters that minimise chi2 = sum(((y - sum p_i x_i)/e)^2), that minimum as chi2, the inverse of the normal matrix as covariance and the square roots of its diagonal as errors, identically for scalar, 1-D, 2-D, packed or viewed arguments and without modifying them; a batch gives the same results as separate fits, for each data set and after changing any of its models. Linearly dependent models are reported as failure with NaN parameters, and incompatible dimensions stop the program. linfit_nn gives non-negative parameters, exact for disjoint non-negative models, and reports success when converged.",
 ["inputs", "histories"], "all data values, for every design matrix within the stated bounds, and all sequences of model changes",
 "there are no tests of the fits; which rows and columns are combined, and the state kept in a batch, quantify over all designs",
 [M+"linfit.hpp"], [("linfit*, linfit_batch_t", M+"linfit.hpp")], "1-3 (4) parameters, up to 4 points, designs that are inverted without rounding." + COMMON)
prop("P23", "Convex hulls contain all their points, and membership and distance agree with geometry",
 "build_convex_hull returns a closed, counter-clockwise, strictly convex polygon whose vertices are among the given points and which contains all of them (for points not all aligned), whatever their order, duplicates included, and does not modify them. in_convex_hull is true exactly for the points inside or on the border of a closed convex polygon, given in either orientation, from any starting vertex and with aligned vertices, for one or several points; convex_hull_distance is the distance to the nearest point of the border, positive inside and negative outside, also after the vertices were changed and marked as dirty. Open or too small hulls and incompatible dimensions stop the program.",
 ["inputs"], "all point sets within the stated bounds and all query points",
 "there are no tests of convex hulls; order, ties and aligned points quantify over all point sets",
 [M+"convex_hull.hpp"], [("build_convex_hull, in_convex_hull, convex_hull_distance", M+"convex_hull.hpp")], "Up to 4 (5) points on a small integer grid; polygons of 3-6 vertices." + COMMON)
prop("P24", "Command line arguments set exactly the named variables, to the given values",
 "read_args gives a variable the value of the argument 'name=value' that carries exactly its name (the variable's, the member's or the one given with name()), with no, one or two leading dashes, blanks and quotes around the value removed; 'name' alone means 1, and '[a,b,...]' fills a vector, one element per item. A variable that is not named, or whose value cannot be converted, keeps its value, whatever the other arguments are, overlapping names and invalid arguments included. Values written with program_arguments::write are read back unchanged, merging and recording of defaults keep the order of the arguments, and make_cmd quotes the arguments that contain blanks.",
 ["inputs"], "all arguments up to the stated length, all combinations of names, dashes and valid or invalid values",
 "there are no tests of the argument parser; quoting, dashes, overlapping names and failed conversions quantify over all command lines",
 ["include/vif/utility/argv.hpp"], [("read_args, program_arguments, make_cmd", "include/vif/utility/argv.hpp")], "Up to 3 arguments, up to 5 (6) arbitrary characters; streams are replaced by small models, validated natively." + COMMON)
prop("P25", "ASCII tables are read field by field and written so that they can be read back",
 "read_table gives each column one element per data line (not blank, not a comment, not skipped), equal to the corresponding field: fields separated by runs of delimiter characters, or, for single delimiters (CSV), by each occurrence of the delimiter, empty fields included. Columns can be skipped or grouped into 2-D vectors; a line with too few fields, a field that cannot be converted, several lines for a scalar, or a missing file stop the program. write_table writes one line per element and, aligned to the right, one field per column, after the header given or deduced from the variables' names; columns or headers of incompatible sizes, and files that cannot be written, stop the program. A written table read with the same layout gives the same values.",
 ["inputs"], "all files up to the stated length, all layouts, all small tables",
 "there are no tests of the table functions; empty fields, line ends, comments and column kinds quantify over all files",
 ["include/vif/io/ascii.hpp"], [("read_table, write_table, ftable", "include/vif/io/ascii.hpp")], "Files up to 5 (7) characters, tables up to 3x3; streams and files are replaced by small models, validated natively; integers and strings only." + COMMON)
prop("P26", "Conversions between strings and values accept exactly what they should and round-trip",
 "from_string is true exactly when the whole string, blanks around it excepted, is a value of the requested type (an integer within the type's range, 0 or 1 for a boolean, a single word for a string, a decimal number, nan, inf with an optional sign on either side for floating point), and then gives that value. to_string writes the decimal digits of an integer, so that from_string(to_string(x)) is x, and the elements of a vector between braces; to_string_vector and from_string on vectors and views convert element by element, keep the dimensions and report the validity of each element.",
 ["inputs"], "all strings up to the stated length, all integers of the stated ranges, all types",
 "the tests convert a few literals; partial matches, blanks, signs and limits quantify over all strings",
 ["include/vif/core/string_conversion.hpp"], [("from_string, to_string, to_string_vector", "include/vif/core/string_conversion.hpp")], "Strings up to 4 (5) arbitrary bytes; streams are replaced by small models, validated natively; general floating point text (exponents, rounding, formats) is outside." + COMMON)
prop("P27", "Image operations move, cut, mask and combine exactly the right pixels",
 "For every image, empty ones included: enlarge surrounds it with the default, shrink removes margins and undoes enlarge; subregion gives the pixels of a region in or partly or fully outside of the image, and the matching indices in both; flip_x, flip_y mirror; shift is circular and translate_integer fills with the default whatever the distance; recenter puts the given pixel at the centre; translate and scale interpolate linearly inside the image and give the default elsewhere; boxcar calls its function with exactly the pixels of the window inside the image; mask_inflate flags exactly the pixels within the given number of steps; convolve2d (without FFTW) is the sum of the pixels weighted by the kernel with zero outside, for kernels of any odd size; circular_mask counts the corners of each pixel within the circle, radial_profile averages over the rings around the centre, and generate_img evaluates its function for each pixel. Arguments are not modified, and invalid ones stop the program.",
 ["inputs"], "all pixel values, shifts, regions, windows, masks and kernels within the stated bounds",
 "there are no tests of the image functions; borders, empty images and regions outside of the image quantify over all arguments",
 ["include/vif/astro/image.hpp"], [("enlarge, shrink, subregion, translate*, flip_*, shift, recenter, boxcar, mask_inflate, convolve2d_naive, circular_mask, radial_profile", "include/vif/astro/image.hpp")], "Images up to 3x3 (4x3); rotations, bicubic interpolation, FFTW and WCS are outside." + COMMON)
prop("P28", "Segmentation maps partition the image into contiguous segments with exact properties",
 "segment labels the 4-connected components of the non-zero pixels with consecutive identifiers in the order of their first pixel, leaves the background at zero, erases the components smaller than the minimal area, and gives the exact area, centre and first pixel of each; foreach_segment gives each pixel of the segment of each seed exactly once. segment_deblend gives contiguous segments made only of finite pixels above the threshold, each with its peak, number of pixels, total flux and barycentre, at least the minimal area, brightest peak first, and leaves out no pixel above the threshold. segment_distance extends the segments over the whole map so that distance, nearest pixel and segment agree. Outputs do not depend on their previous content, and a first identifier of zero stops the program.",
 ["inputs"], "all maps, images and parameters within the stated bounds",
 "there are no tests of the segmentation; shapes, ties and sizes quantify over all maps",
 ["include/vif/astro/image.hpp"], [("segment, segment_deblend, foreach_segment, segment_distance", "include/vif/astro/image.hpp")], "Maps up to 3x3 (3x4), deblending up to 2x2 and 1x5 (2x3)." + COMMON)
prop("P29", "Regular expressions extract and replace exactly the successive matches",
 "regex_match tells whether the expression matches anywhere in the string. regex_extract returns one row for each of the successive non-overlapping matches, with one column for each capturing group (empty where the group took no part in the match), literal parentheses not counting as groups. regex_replace replaces each of these matches, and nothing else, by what the function returns for its groups. ^ matches only at the beginning of the string, expressions that match nothing at a position advance by one character and terminate, the compiled expression is always released, and an invalid expression stops the program with an error.",
 ["inputs"], "all strings for a set of expressions that covers the constructs, within the stated bounds",
 "the tests extract from two literal strings; empty matches, optional groups and repetitions quantify over strings and expressions",
 ["include/vif/utility/bits/string-regex.hpp"], [("regex_match, regex_extract, regex_replace", "include/vif/utility/bits/string-regex.hpp")], "Strings of up to 4 (5) characters, 11 expressions; regexec itself is libc's and replaced by a model in the symbolic run." + COMMON)
prop("P30", "Random numbers stay in their range and follow the requested probabilities",
 "For every sequence produced by the generator: randomu returns values from zero to one (excluded), one deviate for each element in order; randomi returns integers between the two limits included, negative limits included, each with the same share of the deviates; random_coin(p) is true exactly for the share p of the deviates, never for 0, always for 1; random_pdf_discrete picks each index with a share proportional to its weight, random_pdf with a constant density is uniform over its support; shuffle returns a permutation that depends only on the generator and leaves its argument unchanged. Vectors have the requested dimensions.",
 ["inputs", "schedules"], "all outputs of the generator",
 "the tests draw one fixed seed; a value out of range appears for one deviate among billions",
 ["include/vif/math/random.hpp"], [("randomu, randomi, random_coin, random_pdf, random_pdf_discrete, shuffle", "include/vif/math/random.hpp")], "Any deviate; vectors of up to 4 (6) elements; normal deviates are outside." + COMMON)
na("N01", "FITS tables and images read back what was written",
 "Columns and images written with vif::fits are read back unchanged, with the same types and dimensions, whatever subset of columns or pixels is asked for.",
 ["inputs", "histories"], "all tables and images", "the tests write and read a few fixed files",
 ["include/vif/io/fits.hpp"], [("fits::write_table, fits::read_table", "include/vif/io/fits.hpp")],
 "Everything observable goes through cfitsio, an external C library of which no source or bitcode is available offline; a model of it would be a specification of cfitsio, not the code.")
na("N02", "Sky projections, Fourier transforms, LAPACK and GSL numerics agree with mathematics",
 "Conversions between pixels and sky coordinates are inverse of each other, ifft(fft(x)) = n x, LAPACK solvers agree with the built-in ones, integrals of special functions are accurate.",
 ["inputs"], "all floating point inputs", "the tests compare a few literal values with tolerances",
 ["include/vif/astro/wcs.hpp", "include/vif/math/fourier.hpp", "include/vif/math/matrix.hpp"], [("astro::wcs, fft, LAPACK variants", "include/vif/math/fourier.hpp")],
 "The computations are done by WCSLib, FFTW, LAPACK and GSL, external binaries; what remains in vif is argument passing. Transcendental functions with rounding have no decidable encoding here.")
na("N03", "Floating point text formatting is exact and locale independent",
 "to_string, print and write_table of floating point values give the shortest or requested precision and are read back unchanged, exponents and formats included.",
 ["inputs"], "all floating point values and formats", "the tests print a few literals",
 ["include/vif/core/string_conversion.hpp"], [("format::*, to_string", "include/vif/core/string_conversion.hpp")],
 "The digits are produced by libstdc++'s num_put and libc's printf, outside of the repository; integers, booleans, strings, special values and short decimals are decided by P26.")
