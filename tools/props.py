#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe) or ["return value of the public call", "contents of every live array after the call"],
                               hook_needed=None)))
T = "The tests compare a handful of hand-picked calls with NumPy; "
p("V01", "Views read exactly the elements their index expression designates",
  "For every chain of basic indexing (integers, slices with any start/stop/step, ellipsis, new axes), transposition, axis permutation, flipping, reshaping, squeezing, expanding and broadcasting applied to an array, the resulting array has the shape, and at every position the element, that row-major index arithmetic on the original array prescribes, and repeated iteration, nested lists and byte dumps of it list the same elements in row-major order. Integer indices outside an axis raise IndexError instead of reading memory.",
  ["inputs", "programs"], "all arrays up to 4 dimensions (including empty and length-1 axes), all dtypes, all chains of view operations with all slice bounds and steps of either sign",
  T + "view chains compose offsets, strides of either sign, empty axes and contiguity flags, and the space of chains is unbounded.",
  ["src/array/views.rs", "src/array/iter.rs", "src/array/mod.rs", "src/python/pyarray/dunder_item.rs", "src/python/pyarray/mod.rs", "src/python/shape.rs"],
  [("offset/stride computation of views", "src/array/views.rs slice_axis, view_with, reshape, broadcast_to, squeeze, expand_dims"), ("index parsing and slice clamping", "src/python/pyarray/mod.rs expand_ellipsis, normalize_slice, normalize_index"), ("strided iteration", "src/array/iter.rs StridedIter")],
  [("buffer, offset, shape, strides", "what an array handle denotes", "src/array/mod.rs RumpyArray")])
p("V02", "Writes reach exactly the aliased elements and nothing else",
  "After any history of element and slice assignment, fill, put, place, putmask, copyto, fill_diagonal, put_along_axis and shuffle on arrays and their views, every live array shows exactly the written elements that it shares with the written view and is otherwise unchanged; copies, flattenings, casts and reshapes of non-contiguous arrays are isolated from their source, views are not. An assignment whose source overlaps its destination, is broadcast to it, or has another dtype stores the values the source had before the assignment, and a rejected assignment changes nothing.",
  ["histories", "inputs"], "all histories of view creation, copying and in-place writes over several arrays sharing buffers",
  T + "aliasing is a property of histories over several handles, and tests look only at the array that was written.",
  ["src/array/mod.rs", "src/python/pyarray/dunder_item.rs", "src/python/pyarray/mod.rs", "src/python/indexing.rs", "src/ops/indexing.rs", "src/array/buffer.rs"],
  [("shared buffer behind views", "src/array/buffer.rs, RumpyArray.buffer"), ("in-place writers", "src/python/pyarray/mod.rs fill_view/fill/put, src/python/indexing.rs put/place/putmask/copyto/fill_diagonal/put_along_axis")],
  [("heap of buffers and handles", "which handles alias", "src/array/mod.rs RumpyArray.buffer")])
p("V03", "Functions never modify their operands and results own fresh memory",
  "No operation other than the documented in-place writers changes the contents, shape or dtype of any array reachable by the program, whatever its size, layout or reference count, including chained expressions on large temporaries. Arrays returned by computing operations never share memory with their operands, so later writes to either side are invisible on the other.",
  ["histories", "inputs"], "all operations of the library, all operand layouts, sizes on both sides of the temporary-elision threshold, named and temporary operands",
  T + "an operand mutated under a particular layout, size or refcount leaves the compared result intact.",
  ["src/python/pyarray/mod.rs", "src/array/mod.rs", "src/ops/ufunc.rs", "src/ops/mod.rs", "designs/elision.md"],
  [("temporary elision guard", "src/python/pyarray/mod.rs try_elision_candidate, src/array/mod.rs can_reuse_for_output"), ("fresh result allocation", "src/array/constructors.rs")])
p("L01", "Results depend on logical contents only, never on memory layout",
  "For every function of the library, applying it to an array that is a transposed, reversed, strided, offset, Fortran-ordered or broadcast view gives the same shape, dtype and values (up to floating-point rounding) as applying it to a contiguous copy of that view; calling it again gives the same result.",
  ["inputs", "configurations"], "all public functions and methods, all dtypes they accept, all memory layouts, lengths around vector-width boundaries",
  T + "tests build almost all operands contiguously while every kernel has separate contiguous and strided paths.",
  ["src/ops/loops/strided.rs", "src/ops/loops/contiguous.rs", "src/ops/dispatch.rs", "src/ops/ufunc.rs", "src/ops/array_methods/reductions.rs", "src/ops/matmul.rs", "src/ops/linalg.rs", "src/ops/fft.rs"],
  [("contiguous vs strided kernel dispatch", "src/ops/dispatch.rs, src/ops/loops"), ("layout handling in linalg/matmul/fft", "src/ops/matmul.rs, src/ops/linalg.rs, src/ops/fft.rs")])
p("B01", "Broadcasting pairs elements by the right-aligned size-1 rule",
  "Element-wise binary functions, comparisons, where, select, broadcast_to, broadcast_arrays and broadcast_shapes accept exactly the operand shapes that agree after right alignment (equal or 1 in every axis), produce the merged shape, and compute each output element from the operand elements at the corresponding index with size-1 axes repeated. Incompatible shapes raise an exception.",
  ["inputs"], "all tuples of shapes up to 4 dimensions with axes 0..4 and scalars, all layouts of the operands",
  T + "the shape-pair space and its interaction with strides is far larger than the tested pairs.",
  ["src/array/manipulation.rs", "src/array/views.rs", "src/ops/ufunc.rs", "src/ops/comparison.rs", "src/python/shape.rs"],
  [("shape merging", "src/array/manipulation.rs broadcast_shapes"), ("zero strides", "src/array/views.rs broadcast_to")])
p("P01", "Result dtypes follow one fixed promotion lattice",
  "The dtype of every binary arithmetic, comparison, concatenation, where and promote_types/result_type call is the documented function of the operand dtypes alone: promotion is commutative, idempotent, never loses the range of an integer operand or the kind of either operand, and comparisons and predicates always return bool. Values, shapes and layouts never influence the result dtype, and result_type and common_type of several operands do not depend on their order. For the boolean, integer, float and complex dtypes can_cast agrees with the lattice (a safe cast is one whose target is the promotion of both, a same-kind cast never goes down the chain bool < unsigned < signed < float < complex, no and equiv mean equality), and issubdtype and isdtype answer membership in the category they name (number, integer, signed, unsigned, inexact, floating, complex, bool).",
  ["inputs", "configurations"], "all pairs and triples of dtypes, all binary operations, all shapes including empty, array-scalar combinations",
  T + "promotion is tested for selected pairs with selected operations.",
  ["src/array/dtype/mod.rs", "src/ops/ufunc.rs", "src/python/dtype.rs", "src/array/manipulation.rs"],
  [("promotion table", "src/array/dtype/mod.rs promote_dtype"), ("operation-specific result dtypes", "src/ops/ufunc.rs"), ("dtype queries", "src/python/dtype.rs can_cast, result_type, common_type, issubdtype, isdtype")])
p("I01", "Integer and boolean arithmetic is exact modulo the dtype's width",
  "On integer arrays +, -, *, negation, abs, square, bitwise operations, shifts, floor division, remainder, gcd, lcm, minimum, maximum, sign and comparisons return, for every element, the exact mathematical result reduced to the dtype's range in two's complement, with floor semantics for // and % and division by zero yielding 0; no value is ever rounded through floating point. Boolean arrays follow boolean algebra for the logical and bitwise operations.",
  ["inputs"], "all integer dtypes, all operand values including the extremes of each width and values above 2^53, array-array and array-scalar forms, all layouts and lengths",
  T + "tests use small values with which rounding through float64 and missing wrap-around are invisible.",
  ["src/ops/kernels/arithmetic.rs", "src/ops/kernels/bitwise.rs", "src/ops/kernels/comparison.rs", "src/ops/dispatch.rs", "src/ops/ufunc.rs", "src/ops/bitwise.rs", "src/array/dtype/macros.rs"],
  [("typed kernels", "src/ops/kernels/*.rs"), ("kernel selection", "src/ops/dispatch.rs, src/ops/ufunc.rs")])
p("N01", "Float arithmetic and comparisons obey IEEE special-value rules",
  "For float arrays the element-wise operations (+ - * / // % power, sign, abs, rounding functions, minimum/maximum/fmin/fmax, clip, comparisons, isnan/isinf/isfinite/signbit/copysign/isclose, nan_to_num, heaviside, modf, divmod, frexp, ldexp, nextafter, spacing, logical operations, and the elementary functions at their special points, poles and outside their domain) give the exact or correctly propagated result for every combination of zeros of either sign, infinities, NaN and finite values: NaN is unordered and absorbing except in fmin/fmax, x/0 follows IEEE signs, and rounding takes halves to the even neighbour. The result at a position depends only on the operand elements at that position.",
  ["inputs"], "all pairs of special and finite values at every position of arrays of every length and layout, float64/float32/float16 and complex",
  T + "special values are tested in isolation and only on short contiguous arrays.",
  ["src/ops/kernels/math.rs", "src/ops/kernels/arithmetic.rs", "src/ops/kernels/comparison.rs", "src/ops/special.rs", "src/python/ufuncs.rs", "src/ops/comparison.rs"],
  [("float kernels", "src/ops/kernels/math.rs, arithmetic.rs, comparison.rs")])
p("R01", "Reductions aggregate every element of the reduced axes exactly once",
  "sum, prod, min, max, argmin, argmax, mean, var, std, all, any, ptp, count_nonzero and average over axis=None, any single (possibly negative) axis or tuple of axes, with or without keepdims and ddof, equal the mathematical aggregate of exactly the elements designated, with first-occurrence arg results, NaN propagation, the documented identities for empty reductions and exact modular results for integers.",
  ["inputs"], "all shapes up to 4-d including empty axes, all axes, all real dtypes, all layouts, lengths around vector-width and blocking boundaries",
  T + "reductions have separate contiguous, strided, axis and SIMD-blocked code paths per dtype.",
  ["src/ops/array_methods/reductions.rs", "src/ops/array_methods/logical.rs", "src/python/reductions.rs", "src/python/pyarray/methods_reductions.rs", "src/ops/loops"],
  [("reduction loops", "src/ops/array_methods/reductions.rs, src/ops/loops/*.rs"), ("axis and keepdims handling", "src/python/reductions.rs")])
p("R02", "NaN-aware reductions ignore exactly the NaN elements",
  "nansum, nanprod, nanmin, nanmax, nanmean, nanvar, nanstd, nanargmin, nanargmax, nanmedian, nanpercentile/nanquantile, nancumsum and nancumprod give the result of the plain reduction applied to the non-NaN elements of each reduced slice (sum 0, product 1 and NaN otherwise when none is left), for every placement of NaNs and every axis.",
  ["inputs"], "all subsets of NaN positions, all axes and layouts, all float dtypes",
  T + "NaN placements grow exponentially and tests place one or two.",
  ["src/ops/array_methods/reductions.rs", "src/python/reductions.rs", "src/ops/statistics.rs", "src/array/manipulation.rs"],
  [("NaN-skipping loops", "src/ops/array_methods/reductions.rs"), ("bindings", "src/python/reductions.rs")])
p("R03", "Cumulative and difference operations satisfy their recurrences",
  "cumsum, cumprod, cumulative_sum/prod, diff of any order, ediff1d, gradient and trapezoid along any axis produce at each position the exact prefix aggregate or difference of the elements along that axis, keep the other axes aligned, preserve the documented shape and dtype, and wrap integers exactly.",
  ["inputs"], "all shapes, axes, orders, dtypes and layouts",
  T + "tests cover first order on small contiguous arrays.",
  ["src/ops/array_methods/cumulative.rs", "src/ops/numerical.rs", "src/python/numerical.rs", "src/python/reductions.rs"],
  [("prefix loops", "src/ops/array_methods/cumulative.rs"), ("differences", "src/ops/array_methods/cumulative.rs, src/ops/numerical.rs")])
p("S01", "Sorting yields ordered permutations and consistent index arrays",
  "sort, argsort, lexsort, partition and argpartition along any axis return, per slice, a permutation of the input that is ordered (or partitioned at kth) with NaN last; argsort and lexsort are stable and gathering with their indices reproduces the sorted array; the in-place methods do the same to the array itself.",
  ["inputs"], "all arrays with repeated values, NaN, infinities and integer extremes, all axes, lengths across the algorithm's cutoffs, all dtypes and layouts",
  T + "stability, ties, NaN and long inputs are combinations the tests sample once.",
  ["src/ops/array_methods/sorting.rs", "src/python/reductions.rs", "src/python/indexing.rs", "src/python/pyarray/mod.rs"],
  [("sort kernels", "src/ops/array_methods/sorting.rs"), ("partition", "src/python/pyarray/mod.rs partition_select")])
p("S02", "Set, search and counting functions agree with set theory",
  "unique (with index, inverse and counts), union1d, intersect1d, setdiff1d, setxor1d, isin/in1d, searchsorted (both sides), digitize, bincount, nonzero, argwhere, flatnonzero and count_nonzero return exactly the sorted sets, positions and counts that their definitions prescribe, for arbitrary duplicates and layouts.",
  ["inputs"], "all pairs of arrays over a small alphabet plus wide integers, NaN-free floats and booleans, all dimensionalities and layouts",
  T + "duplicate patterns, boundary hits and empty operands multiply combinatorially.",
  ["src/ops/set_ops.rs", "src/ops/array_methods/sorting.rs", "src/ops/indexing.rs", "src/python/indexing.rs", "src/array/manipulation.rs"],
  [("set algebra", "src/ops/set_ops.rs"), ("binary search", "src/ops/indexing.rs"), ("unique", "src/ops/array_methods/sorting.rs")])
p("J01", "Joining and splitting place every element exactly once",
  "concatenate, stack, hstack, vstack, dstack, column_stack, block, append, split, array_split, hsplit, vsplit, dsplit and unstack place each input element at the position its definition prescribes, accept exactly the compatible shapes, and splitting followed by joining reproduces the array.",
  ["inputs"], "all numbers of operands, shapes, axes (negative included), split positions, dtypes and layouts",
  T + "axis, operand count and layout combine freely.",
  ["src/array/manipulation.rs", "src/python/shape.rs"],
  [("join and split loops", "src/array/manipulation.rs concatenate, stack, split, array_split")])
p("M01", "Rearrangement functions move elements by their index maps",
  "roll, flip, fliplr, flipud, rot90, tile, repeat, pad, moveaxis, rollaxis, swapaxes, transpose, tril, triu, diag, diagonal, diagflat, trim_zeros, resize, delete and insert put at every output position exactly the element (or fill value) given by their index map and nothing else, for every shift, count, axis, offset and mode.",
  ["inputs"], "all shapes, axes, shifts, repeat counts, pad widths and modes, dtypes and layouts",
  T + "parameter spaces are sampled at one or two points.",
  ["src/array/manipulation.rs", "src/python/shape.rs", "src/ops/mod.rs"],
  [("index maps", "src/array/manipulation.rs, src/python/shape.rs")])
p("G01", "Gather and select functions pick exactly the addressed elements",
  "Boolean and integer-array indexing, take, take_along_axis, compress, extract, choose, where, select, piecewise and clip return exactly the elements addressed by their index, mask or condition operands in the documented order, preserve dtype and exact values, and raise IndexError for any index outside the axis.",
  ["inputs"], "all index arrays (negative, repeated, out of range, empty), masks, axes, dtypes including wide integers, and layouts",
  T + "index contents and layouts multiply combinatorially.",
  ["src/array/mod.rs", "src/ops/indexing.rs", "src/python/indexing.rs", "src/python/pyarray/dunder_item.rs"],
  [("selection loops", "src/array/mod.rs select_by_mask/select_by_indices, src/ops/indexing.rs")])
p("C01", "Casts and interchange preserve every representable value",
  "astype, array/asarray/frombuffer/fromfile construction, NumPy interchange in both directions, tolist, item, tobytes, view, copy, ascontiguousarray and asfortranarray preserve each value exactly when the target dtype can represent it, truncate floats toward zero to integers and map nonzero to True, for every dtype pair, shape and layout; tobytes of any layout equals the row-major image.",
  ["inputs"], "all ordered dtype pairs, values at and around representability limits, all layouts",
  T + "casts are tested with small values where a detour through float64 is invisible.",
  ["src/array/mod.rs", "src/array/dtype/macros.rs", "src/python/creation.rs", "src/array/constructors.rs", "src/python/pyarray/mod.rs"],
  [("casting", "src/array/mod.rs astype"), ("array interface", "src/python/creation.rs asarray, src/python/pyarray/mod.rs __array_interface__")])
p("O01", "Saved arrays load back identically and damaged files are rejected",
  "A .npy or .npz file written by save, savez or savez_compressed holds the shape, dtype, order of names and every value of the arrays saved, of any layout, and is read back identically by rumpy's load and by NumPy; files NumPy writes (C or Fortran order, either byte order) load identically; later writes to the arrays do not reach the file, later saves replace it. tofile writes the elements' bytes in row-major order and fromfile reads any prefix of them; dumps and dump give a pickle of the same array. savetxt and tofile with a separator write each element with the printf conversion asked for (d, e, f, g with flags, width and precision), and loadtxt, genfromtxt and fromfile read numbers back as written - integers of an integer dtype exactly, tables as (rows,) for one column and (rows, columns) otherwise - honouring delimiter, comments (also at the end of a line), skipped rows, max_rows, usecols and filling of missing entries. A missing, truncated or damaged container, an unreadable number, a ragged table or a missing column raises an ordinary exception and never yields a wrong array, a panic or a crash.",
  ["inputs", "histories", "fault_sequences"], "all dtypes, shapes (0-d and empty included), layouts, histories of overwriting files, and truncation at every byte",
  T + "tests round-trip a few contiguous arrays and never damage a file.",
  ["src/ops/io.rs", "src/python/io.rs"],
  [("npy header writer/parser", "src/ops/io.rs"), ("npz archive", "src/ops/io.rs")],
  [("files", "file name to stored arrays", "file system")])
p("K01", "Contractions sum the products prescribed by their index expression",
  "matmul (and @), dot, inner, outer, vdot, tensordot, einsum (any subscript with repeated, summed, permuted and batched labels, implicit output in alphabetical order), kron, trace, cross (two vectors of length 3), multi_dot and matrix_power (n >= 0) return, with the promoted dtype of their operands, the sum over the contracted indices of the products: exactly for values whose sums are representable, wrapping for integers, with and/or for bool, and conjugating the first operand of vdot; matmul broadcasts leading dimensions and inner does the same over vectors (by design), trace and vdot return Python numbers; operands whose dimensions do not fit raise an error.",
  ["inputs"], "all subscript expressions over a small index alphabet, all operand shapes up to 3-d with batch axes, dtypes and layouts",
  T + "einsum alone has unbounded subscripts; tests use about forty.",
  ["src/ops/matmul.rs", "src/ops/einsum.rs", "src/ops/dot.rs", "src/ops/inner.rs", "src/ops/outer.rs", "src/ops/gufunc", "src/ops/linalg.rs"],
  [("matmul kernels", "src/ops/matmul.rs"), ("einsum planner", "src/ops/einsum.rs"), ("gufunc loops", "src/ops/gufunc/mod.rs")])
p("Q01", "Order statistics, histograms and interpolation match their definitions",
  "median, percentile, quantile, histogram, histogram2d, histogramdd, histogram_bin_edges, bincount, interp, cov, corrcoef, convolve, correlate, gradient, trapezoid and the polynomial functions (polyval, polyder, polyint, polyfit, roots) return the exact rational value of their definition on rational inputs, counting every sample in exactly one bin with the last bin closed.",
  ["inputs"], "all small multisets of rationals, q in [0,100] including the ends, bin counts and explicit edges, samples on edges and outside, axes and layouts",
  T + "edge hits, ties and interpolation fractions are sampled at a few points.",
  ["src/ops/statistics.rs", "src/array/manipulation.rs", "src/ops/numerical.rs", "src/ops/poly.rs", "src/python/indexing.rs", "src/python/misc.rs"],
  [("percentile/histogram/interp", "src/array/manipulation.rs percentile, src/ops/statistics.rs, src/ops/numerical.rs"), ("polynomials", "src/ops/poly.rs")])
p("U01", "Random streams are deterministic, in range and well-formed",
  "Two generators with the same seed and the same history of calls return identical values, a generator's later draws depend only on its seed and its own earlier calls, and splitting one draw of n values into several draws yields the same stream for the scalar distributions. integers lies in [low, high), random in [0,1), uniform in its range, choice, shuffle and permutation return elements of their source with exact multiplicity (without replacement: distinct positions), and counts of binomial, multinomial and hypergeometric respect their bounds.",
  ["histories", "inputs"], "all seeds, all interleavings of calls on several generators, all parameter values and sizes",
  T + "tests look at one seed per distribution and at loose moments.",
  ["src/random/generator.rs", "src/random/pcg64.rs", "src/python/random.rs"],
  [("PCG64DXSM stream", "src/random/pcg64.rs"), ("distributions", "src/random/generator.rs"), ("bindings", "src/python/random.rs")],
  [("generator state", "position in the stream", "src/random/pcg64.rs")])
p("D01", "Datetime arithmetic and business-day functions follow the calendar",
  "A datetime64[unit] value denotes an exact moment of the proleptic Gregorian calendar and a timedelta64[unit] value a duration. Conversion between units rounds down to the coarser unit; arithmetic and comparison of mixed units take place in the finer common unit; parsing accepts exactly the valid dates and times and rendering gives the text of the moment; sorting, differences, extremes along an axis and concatenation follow the same order. NaT propagates through arithmetic, compares unequal and unordered, sorts last, and is found by isnat. is_busday, busday_offset (stepping over non-business days in either direction) and busday_count (negative for reversed ranges) agree with the calendar for every week mask and set of holidays, with broadcasting; combinations without a meaning raise.",
  ["inputs"], "dates in 1600-2400 around the epoch, leap days, month and century ends; all units from years to nanoseconds; offsets of both signs; all week masks and small holiday sets; scalar, list and array arguments, views and broadcasting",
  T + "weekday, leap-day, sign, NaT, unit and holiday combinations are sampled at a few dates.",
  ["src/python/datetime.rs", "src/array/dtype/datetime64.rs", "src/ops/datetime.rs"],
  [("unit conversion and calendar", "src/array/dtype/datetime64.rs"), ("arithmetic and comparison", "src/ops/datetime.rs"), ("business days", "src/python/datetime.rs")])
p("T01", "Vectorised string functions equal the per-element string operation",
  "Each function of the char module applied to an array of strings, in any memory layout, returns element for element and in the input's shape (partitions: with a trailing axis of three) the result of the corresponding string operation: case mapping and classification, length, concatenation and repetition, comparison by code points with broadcasting, stripping of whitespace or of given characters, search and counting of non-overlapping occurrences within Python slice bounds, replacement with a limit, partition, justification, zero fill, tab expansion and joining, including empty strings and needles, overlapping candidates, negative bounds and non-ASCII text. index and rindex raise when any element lacks the needle; operands that are not strings raise.",
  ["inputs"], "all strings over small alphabets with spaces, digits, mixed case and multi-byte characters (with one-to-one case mapping), all arguments, shapes and layouts",
  T + "string semantics have many boundary cases (empty needle, start/end, width smaller than length, views) which tests sample once.",
  ["src/ops/char.rs", "src/python/char.rs"],
  [("string kernels", "src/ops/char.rs"), ("bindings", "src/python/char.rs")])
p("X01", "Index utilities and constructors enumerate exactly their grids",
  "arange, linspace, eye, identity, tri, full, zeros, ones and the _like forms, meshgrid, indices, mgrid/ogrid, ix_, ndindex, ndenumerate, flat, ravel_multi_index, unravel_index, diag_indices, tril/triu_indices, packbits/unpackbits, fromfunction and nonzero-style index builders produce exactly the elements of the grid they describe, in row-major order, and mutually inverse pairs invert each other on their whole domain.",
  ["inputs"], "all shapes up to 4-d including empty axes, offsets and steps of either sign, all dtypes",
  T + "tests sample a few parameters of each constructor.",
  ["src/python/creation.rs", "src/array/constructors.rs", "src/python/indexing.rs", "src/array/manipulation.rs", "src/python/misc.rs"],
  [("constructors", "src/python/creation.rs, src/array/constructors.rs"), ("index builders", "src/python/indexing.rs")])
p("F01", "Printed arrays show every element in its place",
  "The text of a boolean, integer, float or complex array given by repr and str, read back by Python's rules, is the nested list of the array's elements: the brackets show the shape, integers appear with all their digits and floats to eight decimals, whatever the memory layout of the array. Arrays of more than 1000 elements show exactly the first and last three positions of every axis longer than six, in place, with one ellipsis per printed row that leaves something out. repr names the dtype whenever the numbers alone would not give it (and for empty arrays), and the full shape when something was left out.",
  ["inputs"], "all shapes including 0-d, empty and long ones, all layouts, all values including the extremes of each integer dtype, infinities and NaN",
  T + "the text of a few small arrays is compared, while truncation, strides, nesting depth and number formatting interact.",
  ["src/array/format.rs", "src/array/dtype/macros.rs", "src/array/dtype/complex128.rs", "src/array/dtype/mod.rs", "src/python/pyarray/mod.rs"],
  [("recursive formatting and truncation", "src/array/format.rs format_repr, format_str, display_indices, format_recursive"), ("element text", "src/array/dtype/*.rs format_element")],
  [], ["repr(array)", "str(array)"])
p("E01", "Invalid calls raise ordinary exceptions and leave no trace",
  "A call is accepted exactly when its precondition holds, and a call that is not accepted raises an ordinary Python exception (ValueError, IndexError, TypeError, OverflowError or a library error), changes no array and does not panic or end the process. The preconditions are those of NumPy for the arguments each function takes: axes and indices in range (reductions, scans, sorts, joins, splits, takes, inserts and deletes, axis permutations, rolls, rotations, diagonals), compatible shapes (broadcasting, matmul/dot/inner/tensordot/einsum, stacks, solve, cross, boolean masks, weights, reshape with one inferred dimension), admissible counts (sizes, bins, repeats, pads, sections, orders, percentiles), known dtypes, non-empty input to operations without identity, numeric operands of arithmetic. Functions whose axis or count parameter is unsigned reject negative values.",
  ["inputs", "fault_sequences"], "all functions of the library with arguments outside their domain, interleaved with valid calls",
  T + "error paths are tested for a small fraction of the functions and never for their effect on other state.",
  ["src/python", "src/array/views.rs", "src/ops"],
  [("argument validation", "src/python/*.rs"), ("Option/Result propagation", "src/ops/*.rs, src/array/*.rs")])
p("A01", "Linear algebra and FFT results satisfy their defining equations",
  "On well-conditioned real operands of every size, dtype and layout, solve, inv, det, slogdet, qr, cholesky, svd (of full-rank matrices), eigh, eigvalsh, lstsq, pinv, matrix_rank, matrix_power, norms, tensorsolve/tensorinv and the forward/inverse FFT families return results that satisfy their defining equations (A x = b, A inv(A) = I, Q R = A with orthonormal Q, inverse transforms invert, shifts and frequencies are the documented permutations) within rounding, and exactly singular systems are rejected.",
  ["inputs"], "all small integer matrices with bounded condition number, all transform lengths 1..17, axes, norms and layouts",
  T + "each factorisation is tested on one or two matrices.",
  ["src/ops/linalg.rs", "src/ops/solve.rs", "src/ops/fft.rs", "src/python/linalg.rs", "src/python/fft.rs"],
  [("faer adapters", "src/ops/linalg.rs, src/ops/solve.rs"), ("rustfft adapters", "src/ops/fft.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
