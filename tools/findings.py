"""Writes known_findings.json: defects recorded (not repaired) and defects repaired by fix: commits."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = [
 ("V01", "d7d4b6f", "slicing a view with a negative stride computed the wrong start offset"),
 ("V01", "7dd9e38", "reshape of a non-C-contiguous array scrambled the element order"),
 ("K01", "2441bd8", "einsum returned wrong results for contractions that are not a plain matmul"),
 ("V02", "b71dacf", "integer indices out of bounds and slice bounds inside a tuple were not checked/clamped (reads outside the buffer)"),
 ("I01", "64e7973", "slice assignment from overlapping, broadcast or wide-integer sources stored wrong values"),
 ("C01", "789f271", "astype between integer dtypes and from complex went through f64"),
 ("I01", "143fdbc", "copyto with overlapping, wide-integer or complex sources"),
 ("I01", "cab10dc", "place and putmask with other dtypes, overlapping operands, float16/complex targets"),
 ("I01", "b48b696", "put_along_axis wrote before validating indices and rounded wide integers"),
 ("V01", "f4da2b6", "swapaxes of equal axes copied; tolist of complex/uint64 values"),
 ("I01", "9756bbd", "assignment of one-element arrays rounded values; self assignment"),
 ("V01", "11cac8c", "scalar access, item and flat rounded wide integers and dropped imaginary parts"),
 ("N01", "61f40e5", "remainder/floor_divide/fmod semantics, shifts by the width, mixed-dtype arithmetic through f64"),
 ("N01", "8ab8cd8", "float floor_divide, special functions on strided operands, int scalars and int64/uint64 comparisons, 0-d scalars"),
 ("R01", "23c1672", "reductions over strided lanes, NaN in max/min/argmax/argmin, empty lanes, keepdims of 1-D, integer means, tuple axes, integer diff/cumsum"),
 ("R01", "e37e1fd", "all/any of empty lanes; n-th difference of empty arrays"),
 ("A01", "6e8c184", "2-norm of arrays with eight or more elements or non-contiguous layout"),
 ("R01", "edf229d", "(imports left unused by the reduction repairs)"),
 ("S01", "c9dae8f", "sort/argsort/partition of NaN, wide integers, complex and strided data; in-place sort did not write through views; axis and kth errors"),
 ("S02", "b512109", "set functions compared through f64; nonzero of complex arrays"),
 ("S02", "8e54764", "digitize with decreasing bins, NaN and wide integers"),
 ("J01", "f00165b", "concatenate/stack/append of mixed dtypes copied bytes of the wrong width (memory corruption)"),
 ("M01", "f00165b", "repeat/tile/pad/roll/insert/delete through f64; diag wrote f64 into any dtype; out-of-range indices and axes accepted; tril/triu of stacks"),
 ("G01", "73e52b6", "take and integer-array indexing flattened the index shape, take of a one-row array read outside the buffer, negative and None-axis take"),
 ("J01", "73e52b6", "block joined along the wrong axis"),
 ("G01", "73e52b6", "choose/select did not broadcast (panic), extract read non-bool conditions as bytes, compress ignored true conditions beyond the end"),
 ("K01", "b8f0adc", "matmul of 8/16-bit, unsigned and half types returned zeros, mixed dtypes and negative strides read foreign memory, batch broadcasting picked wrong matrices, 1-D operands squeezed real axes, integer overflow panicked"),
 ("K01", "b8f0adc", "dot/inner/outer/kron/cross/tensordot/vdot/trace/einsum computed through f64 (complex parts dropped, wide integers rounded), dot of N-D operands, einsum of empty operands panicked"),
 ('A01', '9e76bfe', 'irfft of one frequency panicked, irfftn/hfft of odd lengths lost the highest frequency, shorter spectra read out of bounds'),
 ('R03', 'fe0f30e', 'ediff1d of unsigned differences panicked, to_begin/to_end arrays of another dtype were read as raw bytes, complex parts dropped'),
 ('V03', 'd50d51e', 'round of integer arrays and array(a) shared memory with their operand'),
 ('L01', 'cc743ad', 'mixed-dtype arithmetic on operands of 32768 or more elements went through f64 (rounded wide integers, wrong remainders)'),
 ('C01', '88b11a1', 'array(obj, dtype) reinterpreted instead of converting, ignored byte order and inferred list dtypes from the first element'),
 ('C01', 'b734583', 'string arrays could not be exported; Python scalar conversions of one-element arrays rounded'),
 ('C01', 'e4d6d37', 'frombuffer accepted partial elements and offsets beyond the buffer'),
 ('X01', '1fadb89', 'arange of floats gave int64, zero step looped to empty; full of integers went through f64'),
 ('X01', '9283995', 'unravel_index, ravel_multi_index, ix_, ndenumerate and unpackbits ignored layout, masks or counts'),
 ('X01', '159811b', 'linspace missed its endpoint by rounding and truncated into integer dtypes'),
 ('A01', '8137c11', 'solve of non-float64 matrices corrupted memory, singular systems returned inf/NaN, norms of narrow integers wrapped'),
 ('Q01', '8bb797b', "gradient wrote lanes of strided or narrow operands at the operand's byte offsets (heap corruption)"),
 ('Q01', 'b042028', 'convolve/correlate with the longer operand second, interp at the end points, gradient over uneven coordinates, trapezoid with mismatched sample points'),
 ('Q01', '9021b34', 'percentiles of data with NaN or of empty data'),
 ('Q01', '38ad996', 'histogram bins of constant data, NaN, zero bins, reversed ranges'),
 ('Q01', '6914c52', 'cov of float32 lost precision, N-d observations, bincount truncated floats'),
 ('Q01', 'b548573', 'complex polynomial roots were dropped, polyint constants reversed, polyfit weights under a square root'),
 ('O01', 'e87568e', 'Fortran-ordered arrays were written in C order under a Fortran header, malformed npy headers and huge shapes panicked or aborted, big-endian data'),
 ('O01', '73a3dd1', 'savetxt/loadtxt rounded wide integers, dropped imaginary parts and ignored printf flags, missing columns were dropped silently'),
 ('U01', 'f30501c', "random integers rejected wide ranges and small dtypes, shuffle and permutation ignored the array's layout and dtype, choice converted everything to float64, invalid parameters panicked and left the generator unusable"),
 ('U01', '05344f3', 'laplace and logistic draws could be infinite or NaN when the uniform draw was 0 or 1/2-aligned'),
 ('D01', '88cec06', 'NaT and mixed units were treated as plain integers in datetime arithmetic and comparison, unit conversion truncated toward zero, invalid dates were accepted, business-day functions did not broadcast and counted backwards ranges as 0'),
 ('T01', '68254a0', 'string functions read the wrong elements of views, and comparison and concatenation did not broadcast'),
 ('T01', '6f2c767', 'start, end and the characters to strip were ignored'),
 ('T01', 'be371a7', 'centre put the odd cell on the wrong side, replacing the empty string did nothing, long fill characters were accepted, isalnum rejected numeric characters'),
 ('T01', '2fe11d0', 'startswith read past the end of strings shorter than the prefix'),
 ('E01', '156f8fd', 'transpose, permute_dims, swapaxes and moveaxis with bad axes panicked or were accepted'),
 ('V01', '0848916', 'moveaxis with several axes put them at wrong destinations unless given in order'),
 ('E01', '58bd66e', 'rollaxis accepted a start position outside the array'),
 ('V01', '65a126f', 'diagonal of an N-D array dropped the remaining axes and accepted 1-D arrays'),
 ('E01', '107dab3', 'insert along an empty axis divided by zero'),
 ('E01', '3307f27', 'average panicked on weights along an axis or of mismatched shape'),
 ('T01', 'f59cdeb', '== and < of string arrays compared zeros, so all strings were equal'),
 ('E01', '82ced50', 'ufuncs and operators on strings silently returned empty or zero arrays'),
 ('E01', '8bfddc9', 'reshape function panicked on negative dimensions'),
 ('P01', '4c6e98e', "can_cast refused int to wide-enough float/complex casts that promotion performs, and 'equiv' compared names"),
 ('P01', '1142f5f', 'can_cast same_kind allowed signed to unsigned and refused int to float'),
 ('P01', '594425b', 'issubdtype/isdtype categories did not contain the dtypes they name'),
 ('P01', 'ef4b683', 'common_type lost precision of complex with double and of half floats'),
 ('P01', '3a435e9', 'result_type depended on the order of its arguments'),
 ('N01', '5cf3851', 'nextafter moved away from the target for negative numbers and produced NaN from zero downwards'),
 ('N01', '796259d', 'spacing of negative powers of two was half the distance to the neighbour, and lacked the sign'),
 ('N01', '61390d8', 'ldexp overflowed or vanished for representable results (ldexp of frexp of a subnormal was 0) and truncated int64 exponents'),
 ('N01', 'f51bbe9', 'logaddexp of NaN and infinity was infinity'),
 ('N01', '0a1a0c6', 'rint and round took halves away from zero'),
]
FINDINGS = []
def write():
    out = {"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}
    json.dump(out, open(os.path.join(HERE, "..", "known_findings.json"), "w"), indent=1)
if __name__ == "__main__":
    write()
