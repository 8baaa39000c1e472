"""Functions as black boxes: L01 (a result depends only on the values of the operands, not on
their layout, history or call count) and V03 (operands keep their contents, results own fresh
memory).  The table lists call expressions over operands a[0], a[1], ... and module m."""
from gen import *

F, FI, FIB, ANY, CXF = FL[:2], FL[:2] + ["int64", "int32", "uint8", "int8"], FL[:2] + ["int64", "int32", "uint8", "bool"], ALL, ["float64", "complex128"]
# expression, operand shape classes, dtypes
T = []
def t(sh, ds, *fs):
    for f in fs:
        T.append((f, sh.split(), ds))
U = "m.%s(a[0])"
for f in ("sin cos tan arctan arcsinh tanh sinh cosh exp expm1 exp2 cbrt sinc i0 deg2rad rad2deg sqrt log log1p log2 log10 "
          "arcsin arccos arctanh arccosh spacing signbit isnan isinf isfinite isneginf isposinf nan_to_num rint modf frexp").split():
    t("any", F, U % f)
for f in "abs sign square floor ceil trunc fix fabs negative positive reciprocal logical_not conj".split():
    t("any", FI, U % f)
t("any", INTS, U % "bitwise_not", U % "invert")
t("any", FIB, "m.round(a[0])", "m.round(a[0], 1)", "a[0].round(1)", "a[0].copy()", "m.copy(a[0])", "a[0].flatten()", "m.nan_to_num(a[0])",
  "a[0].astype('float64')", "a[0].astype('int64')", "a[0].astype('float32')", "a[0].astype('bool')", "a[0].astype(str(a[0].dtype))",
  "m.array(a[0])", "-a[0]", "abs(a[0])", "a[0] + 1", "a[0] * 2", "1 - a[0]", "a[0] / 2", "a[0] ** 2", "a[0] > 1", "a[0] == a[0]",
  "m.isreal(a[0])", "m.iscomplex(a[0])", "m.clip(a[0], 1, 3)", "a[0].clip(1, 3)", "m.zeros_like(a[0])", "m.ones_like(a[0])", "m.full_like(a[0], 3)")
t("any any=", FI, *["m.%s(a[0], a[1])" % f for f in "add subtract multiply true_divide floor_divide remainder mod fmod power maximum minimum fmax fmin "
  "equal not_equal less less_equal greater greater_equal logical_and logical_or logical_xor hypot arctan2 copysign heaviside "
  "float_power isclose".split()])
t("any any=", F, "m.logaddexp(a[0], a[1])", "m.logaddexp2(a[0], a[1])", "m.nextafter(a[0], a[1])", "m.allclose(a[0], a[1])")
t("any any=", ANY, "m.add(a[0], a[1])", "a[0] + a[1]", "a[0] * a[1]", "a[0] - a[1]", "a[0] == a[1]", "m.array_equal(a[0], a[1])", "m.divmod(a[0], a[1])")
t("any any=", INTS, "a[0] & a[1]", "a[0] | a[1]", "a[0] ^ a[1]", "m.gcd(a[0], a[1])", "m.lcm(a[0], a[1])", "m.left_shift(a[0], a[1])", "m.right_shift(a[0], a[1])")
t("any any= any=", FI, "m.where(a[0] > 1, a[1], a[2])", "m.clip(a[0], a[1], a[2])", "a[0] + a[1] * a[2]", "(a[0] + a[1]) * (a[0] - a[2])", "(a[0] + a[1]) + (a[1] + a[2])")
for f in "sum prod mean std var min max argmin argmax any all ptp median nansum nanprod nanmean nanstd nanvar nanmin nanmax nanmedian nanargmin nanargmax average count_nonzero".split():
    t("any", FIB if f in ("any", "all", "count_nonzero", "max", "min") else FI, "m.%s(a[0])" % f)
    if f != "count_nonzero":
        t("1+", FI, "m.%s(a[0], axis=0)" % f)
        if f not in ("ptp", "median", "nanmedian", "nanargmin", "nanargmax"):
            t("1+", FI, "m.%s(a[0], axis=-1)" % f)
for f in "sum prod mean min max".split():
    t("2+", FI, "m.%s(a[0], axis=(0, 1))" % f)
for f in "sum prod mean std var min max argmin argmax any all ptp".split():
    t("1+", FI, "a[0].%s(axis=0)" % f, "a[0].%s()" % f)
for f in "sum mean min max".split():
    t("2+", FI, "a[0].%s(axis=1, keepdims=True)" % f)
t("any", F, "a[0].skew()", "a[0].kurtosis()", "a[0].moment(2)")
for f in "cumsum cumprod nancumsum nancumprod".split():
    t("1+", FI, "m.%s(a[0], 0)" % f, "m.%s(a[0], -1)" % f, "a[0].cumsum()")
t("1+", FI, "m.diff(a[0])", "m.diff(a[0], axis=0)", "m.diff(a[0], 2)", "m.cumulative_sum(a[0])", "m.cumulative_prod(a[0])", "m.ediff1d(a[0])")
t("1d", F, "m.gradient(a[0])", "m.trapezoid(a[0])", "m.unwrap(a[0])", "m.convolve(a[0], a[0])", "m.correlate(a[0], a[0])", "m.polyfit(m.arange(a[0].size), a[0], 1)",
  "m.roots(a[0])", "m.polyder(a[0])", "m.polyint(a[0])", "m.polyval(a[0], 2.0)", "m.histogram(a[0], bins=4, range=(-5, 9))", "m.histogram_bin_edges(a[0], bins=3)",
  "m.interp(a[0], m.arange(4), m.arange(4))", "m.corrcoef(a[0])", "m.cov(a[0])", "m.fft.fft(a[0])", "m.fft.rfft(a[0])", "m.fft.ifft(a[0])", "m.fft.hfft(a[0])", "m.fft.ihfft(a[0])",
  "m.fft.fftshift(a[0])", "m.fft.ifftshift(a[0])", "m.linalg.norm(a[0])", "m.linalg.vector_norm(a[0])", "m.angle(a[0])")
t("1d 1d=", FI, "m.dot(a[0], a[1])", "m.inner(a[0], a[1])", "m.outer(a[0], a[1])", "m.vdot(a[0], a[1])", "m.kron(a[0], a[1])", "m.convolve(a[0], a[1])", "m.correlate(a[0], a[1])",
  "m.polyval(a[0], a[1])", "m.union1d(a[0], a[1])", "m.intersect1d(a[0], a[1])", "m.setdiff1d(a[0], a[1])", "m.setxor1d(a[0], a[1])", "m.in1d(a[0], a[1])", "m.lexsort((a[0], a[1]))",
  "m.append(a[0], a[1])", "m.column_stack([a[0], a[1]])", "m.trapezoid(a[0], a[1])", "m.histogram2d(a[0], a[1], 3)", "m.average(a[0], 0, a[1])", "m.meshgrid(a[0], a[1])",
  "m.searchsorted(m.sort(a[0]), a[1])", "m.digitize(a[0], m.sort(a[1]))", "m.einsum('i,i->', a[0], a[1])", "m.einsum('i,j->ij', a[0], a[1])")
t("2d", F, "m.cov(a[0])", "m.corrcoef(a[0])", "m.fft.fft2(a[0])", "m.fft.ifft2(a[0])", "m.fft.rfft2(a[0])", "m.fft.fftn(a[0])", "m.fft.ifftn(a[0])", "m.fft.rfftn(a[0])", "m.fft.fftshift(a[0])",
  "m.linalg.norm(a[0])", "m.linalg.matrix_norm(a[0])", "m.linalg.svdvals(a[0])", "m.linalg.matrix_rank(a[0])", "m.linalg.pinv(a[0])", "m.linalg.qr(a[0])", "m.linalg.svd(a[0])",
  "m.linalg.norm(a[0], 1)", "m.linalg.cond(a[0])")
t("2d", FI, "m.trace(a[0])", "m.tril(a[0])", "m.triu(a[0], 1)", "m.diag(a[0])", "m.einsum('ij->j', a[0])", "m.einsum('ij,ij->i', a[0], a[0])", "a[0] @ a[0].T", "m.matmul(a[0].T, a[0])",
  "m.tensordot(a[0], a[0], ([0], [0]))", "m.dot(a[0], a[0].T)", "m.kron(a[0], a[0])", "m.nonzero(a[0])", "m.argwhere(a[0])", "m.inner(a[0], a[0])", "m.apply_along_axis(lambda x: x.sum(), 0, a[0])",
  "m.apply_along_axis(lambda x: x.max(), 1, a[0])", "m.apply_over_axes(m.sum, a[0], [0])", "m.lexsort((a[0][0], a[0][0]))")
t("sq", F, "m.linalg.det(a[0])", "m.linalg.inv(a[0] + 20.0 * m.eye(a[0].shape[0]))", "m.linalg.solve(a[0] + 20.0 * m.eye(a[0].shape[0]), a[0])", "m.linalg.slogdet(a[0])", "m.linalg.eigvalsh(a[0] + a[0].T)",
  "m.linalg.cholesky(a[0] @ a[0].T + 5.0 * m.eye(a[0].shape[0]))", "m.linalg.matrix_power(a[0], 3)", "m.linalg.eigh(a[0] + a[0].T)", "m.linalg.multi_dot([a[0], a[0], a[0]])",
  "m.linalg.eigvals(a[0] + a[0].T)", "m.linalg.lstsq(a[0] + 20.0 * m.eye(a[0].shape[0]), a[0])")
t("2d", FI, "m.linalg.matrix_transpose(a[0]) + 0" if False else "m.einsum('ij,kj->ik', a[0], a[0])")
t("1+", FI, "m.sort(a[0])", "m.sort(a[0], 0)", "m.argsort(a[0])", "m.argsort(a[0], 0)", "m.partition(a[0], 0)", "m.argpartition(a[0], 0)", "m.unique(a[0])", "m.unique_counts(a[0])", "m.unique_inverse(a[0])",
  "m.unique_all(a[0])", "m.nonzero(a[0])", "m.flatnonzero(a[0])", "m.repeat(a[0], 2)", "m.repeat(a[0], 2, 0)", "m.tile(a[0], 2)", "m.roll(a[0], 1)", "m.roll(a[0], 1, 0)", "m.concatenate([a[0], a[0]])",
  "m.stack([a[0], a[0]])", "m.vstack([a[0], a[0]])", "m.hstack([a[0], a[0]])", "m.dstack([a[0], a[0]])", "m.pad(a[0], 1)", "m.pad(a[0], 1, 'edge')", "m.take(a[0], [0, 0])", "m.take(a[0], [0, 0], 0)", "m.delete(a[0], 0)",
  "m.delete(a[0], 0, 0)", "m.insert(a[0], 0, 5)", "m.append(a[0], a[0])", "m.compress([True], a[0], 0)", "m.extract(a[0] > 0, a[0])", "a[0][a[0] > 0]", "a[0][m.asarray([0, 0])]" if False else "m.take_along_axis(a[0], m.argsort(a[0], 0), 0)",
  "m.resize(a[0], (7,))", "m.isin(a[0], a[0])", "m.percentile(a[0], 30)", "m.quantile(a[0], 0.25)", "m.nanpercentile(a[0], 30)", "m.percentile(a[0], 30, 0)", "m.select([a[0] > 0], [a[0]], 2.0)",
  "m.choose(m.zeros(3, dtype='int64'), [a[0][0], a[0][0]])" if False else "m.where(a[0] > 0, a[0], a[0])", "m.piecewise(a[0], [a[0] > 0], [1.0])", "m.block([a[0], a[0]])", "m.bincount(abs(a[0]).astype('int64').flatten())", "a[0].tolist()", "a[0].tobytes()",
  "m.packbits(a[0].astype('uint8'))", "m.trim_zeros(a[0].flatten())", "m.diagflat(a[0].flatten())", "list(a[0].flat)", "m.cumsum(a[0].flatten(), 0)", "a[0].take([0])", "a[0].repeat(2)", "m.sinh(a[0] / 8)", "m.array(a[0].tolist())",
  "m.ascontiguousarray(a[0]).tobytes()", "m.asfortranarray(a[0]).tolist()")
t("1+", ANY, "m.concatenate([a[0], a[0]], 0)", "m.stack([a[0], a[0]], 0)", "m.roll(a[0], 1, 0)", "m.repeat(a[0], 2, 0)", "m.tile(a[0], 2)", "m.take(a[0], [0], 0)", "a[0].copy()", "a[0].flatten()", "m.pad(a[0], 1)", "a[0].tolist()", "a[0].tobytes()")
t("any", CX, *[U % f for f in "exp sqrt sin cos abs conj angle square log".split()])
t("1d", ["complex128"], "m.fft.fft(a[0])", "m.fft.ifft(a[0])", "m.fft.irfft(a[0])", "m.fft.hfft(a[0])", "a[0] * a[0]", "m.vdot(a[0], a[0])")

# shapes of the results handled here are small; operands take ordinary small values
def opshape(R, c):
    if c == "any":
        return shape(R, maxnd=3, empty=0.02)
    if c == "1+":
        return shape(R, maxnd=3, mind=1, empty=0.02)
    if c == "2+":
        return shape(R, maxnd=3, mind=2, empty=0.02)
    if c == "1d":
        return (R.choice([1, 2, 3, 4, 5, 7, 8, 9]),)
    if c == "2d":
        return R.choice([(2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (2, 5), (4, 4)])
    if c == "sq":
        n = R.choice([1, 2, 3, 4])
        return (n, n)
def gval(R, d):
    return small(R, d, -3, 6)
def nanval(R, d):
    return [0, 0] if d in FL and R.random() < 0.15 else small(R, d, -3, 6)
def operands(R, f, sh, ds):
    d = R.choice(ds)
    e = d if R.random() < 0.8 else R.choice(ds)
    s = opshape(R, sh[0])
    g = nanval if R.random() < 0.1 and "linalg" not in f and "fft" not in f and "poly" not in f else gval
    return [(s, d if k == 0 else e, vals(R, prod(s), d if k == 0 else e, g)) for k in range(len(sh))]

@prop("L01", 10)
def layouts(R, i):
    f, sh, ds = T[i % len(T)]
    P = Prog(f)
    A = operands(R, f, sh, ds)
    base = [mk(P, R, s, d, v, "c") for s, d, v in A]
    calls = [base]
    for k in range(R.choice([1, 2, 3])):
        calls.append([base[j] if R.random() < 0.1 else mk(P, R, s, d, v, R.choice(["F", "rev", "step", "off", "mix", "mix", "bc"]))
                      for j, (s, d, v) in enumerate(A)])
    if R.random() < 0.3:
        calls.append(base)
    for hs in calls:
        P.ev.append({"op": "call", "a": hs, "p": {"f": f}})
    return P.done()

# expressions that may legitimately return a view of an operand
VIEWS = ("m.asarray", "m.ix_", "m.clip")
@prop("V03", 10)
def fresh(R, i):
    f, sh, ds = T[i % len(T)]
    P = Prog(f)
    A = operands(R, f, sh, ds)
    hs = [mk(P, R, s, d, v) for s, d, v in A]
    if len(hs) > 1 and A[0] == A[1] or R.random() < 0.1:
        hs[-1] = hs[0] if A[0][0] == A[-1][0] else hs[-1]
    n = len(P.sh)
    P.ev.append({"op": "call", "a": hs, "p": {"f": f}})
    P.ev.append({"op": "poke", "a": [n + 1], "p": {"v": [1, 1]}})
    k = R.choice(hs)
    P.ev.append({"op": "poke", "a": [k], "p": {"v": [0, 1]}})
    return P.done()

# ------------------------------------------------------------- large operands
# elementwise expressions may be evaluated in chunks; results are exact in every mode
BIGE2 = ["a[0] + a[1]", "a[0] - a[1]", "a[0] * a[1]", "(a[0] + a[1]) * a[0]", "(a[0] - a[1]) + (a[0] + a[1])", "a[0] + a[0]", "(a[0] * a[0]) - a[1] * 2",
         "m.maximum(a[0], a[1])", "m.minimum(a[0], a[1] + a[1])", "m.where(a[0] > a[1], a[0], a[1])", "a[0] == a[1]", "a[0] < a[1]", "m.add(m.add(a[0], a[1]), a[1])",
         "a[0] / a[1]", "a[1] - a[0] - a[1]", "m.subtract(a[0], a[1]) + a[0]", "a[0] // a[1]", "a[0] % a[1]", "(a[0] + a[1]) // a[1]", "a[0] + a[1] + a[0] + a[1]"]
BIGE1 = ["abs(a[0])", "-a[0]", "a[0] + 3", "a[0] * 2 + 1", "m.square(a[0])", "m.floor(a[0])", "m.clip(a[0], 2, 50)", "m.sign(a[0])", "(a[0] + 1) - 1", "m.sqrt(abs(a[0]))", "a[0] > 4", "1 - a[0]"]
BIGR = ["m.sort(a[0])", "m.max(a[0])", "m.min(a[0])", "m.argmax(a[0])", "m.argmin(a[0])", "m.cumsum(a[0], 0)", "m.unique(a[0])", "m.any(a[0] > 3)", "m.all(a[0] > 3)", "m.roll(a[0], 7)", "m.concatenate([a[0], a[0]])",
        "m.nonzero(a[0] > 5)", "m.argsort(a[0])", "a[0].copy()", "m.diff(a[0])", "m.reshape(a[0], (-1, 4))", "m.repeat(a[0], 2)", "m.take(a[0], [0, -1, 5])", "a[0][::3] + a[0][::3]", "m.flip(a[0], 0) + a[0]"]
BIGN = [32, 1000, 32764, 32768, 32772, 40000, 65536, 70000]
def bigprog(R, i):
    P = Prog()
    k = i % 3
    f = R.choice([BIGE2, BIGE1, BIGR][k])
    d = R.choice(["float64", "float64", "int64", "int32", "float32", "uint8", "uint64", "int16"])
    e = d if R.random() < 0.6 else R.choice(["float64", "int64", "int32", "float32", "uint8", "int16"])
    ds = [d, e] if k == 0 else [d]
    n = R.choice(BIGN)
    modes = ["named", "temp", "strided", "rev", "alias", "offset", "half"] + (["chunk", "chunk"] if k < 2 else [])
    v = R.choice([0, 0, 1, 2]) if k != 2 else R.choice([1, 0])
    s = R.randint(1, 10**6)
    ms = R.sample(modes, 3)
    if k < 2 and "chunk" not in ms:
        ms[0] = "chunk"
    for md in ms:
        P.ev.append({"op": "big", "a": [], "p": dict(f=f, d=ds, n=n, s=s, v=v, m=md)})
    return P.done()
prop("L01", 0.6)(bigprog)
def bigprog3(R, i):
    return bigprog(R, i)
prop("V03", 0.6)(bigprog3)
