"""The public calls the machinery exercises: op name -> f(machine, operands, params).

`M.m` is the array module under test (rumpy, or numpy when the specification itself is
cross-validated).  Every entry makes exactly one public call of the library (composite
entries say so).  Results: arrays, Python scalars, tuples/lists of them.
"""
import re
import numpy as np
from enc import dec

OPS = {}
def op(name):
    def reg(f):
        OPS[name] = f
        return f
    return reg

class Py:
    """A nested Python value (list of numbers) returned by the library."""
    def __init__(self, x):
        self.x = x
class Multi:
    """A sequence of results that must not be unpacked further."""
    def __init__(self, xs):
        self.xs = xs

def key(k):
    """Index expression from its encoding (spec/Views.tla)."""
    out = []
    for it in k:
        t = it[0]
        if t == 0:
            out.append(it[1])
        elif t == 1:
            out.append(slice(it[2] if it[1] else None, it[4] if it[3] else None,
                             it[5] if len(it) < 7 or it[6] else None))
        elif t == 2:
            out.append(None)
        else:
            out.append(Ellipsis)
    return out

def getkey(p):
    k = key(p["k"])
    if len(k) == 1 and p.get("bare", 0):
        return k[0]
    return tuple(k)

def val(v, d):
    return dec(v, d)

def nparr(p):
    d = p["d"]
    if d == "str":
        return np.array(["".join(map(chr, v)) for v in p["v"]]).reshape(p["s"]) if p["v"] else np.zeros(p["s"], "<U1")
    if d.startswith(("datetime64", "timedelta64")):
        iv = np.array([-2**63 if list(v) == [0, 0] else dec(v, "int64") for v in p["v"]], dtype="int64")
        return iv.view(d).reshape(p["s"])
    return np.array([dec(v, d) for v in p["v"]], dtype=d).reshape(p["s"])

def mk(M, p):
    a = nparr(p)
    if M.nd is np.ndarray:
        return a
    return M.m.asarray(a)

@op("array")
def _(M, a, p):
    x = nparr(p)
    via = p.get("via", 0)
    if M.nd is np.ndarray:
        return x
    if via == 1 and x.dtype.kind in "fiub" and x.dtype != np.float16:
        return M.m.array(x.tolist(), dtype=str(x.dtype)) if x.ndim and x.size else M.m.asarray(x)
    # the interchange must copy: the source is dropped at once
    return M.m.asarray(x)

# ---------------------------------------------------------------- views
@op("getitem")
def _(M, a, p):
    r = a[0][getkey(p)]
    return r
OPS["T"] = lambda M, a, p: a[0].T
OPS["transpose"] = lambda M, a, p: M.m.transpose(a[0]) if p.get("fn", 1) else a[0].transpose()
OPS["mT"] = lambda M, a, p: M.m.matrix_transpose(a[0])
OPS["permute"] = lambda M, a, p: (M.m.transpose(a[0], p["axes"]) if p.get("fn", 0) == 0 else
                                  M.m.permute_dims(a[0], p["axes"]) if p["fn"] == 1 else a[0].transpose(*p["axes"]))
OPS["swapaxes"] = lambda M, a, p: M.m.swapaxes(a[0], p["a1"], p["a2"]) if p.get("fn", 1) else a[0].swapaxes(p["a1"], p["a2"])
OPS["moveaxes"] = lambda M, a, p: M.m.moveaxis(a[0], list(p["src"]), list(p["dst"]))
OPS["moveaxis"] = lambda M, a, p: M.m.moveaxis(a[0], p["a1"], p["a2"])
OPS["rollaxis"] = lambda M, a, p: M.m.rollaxis(a[0], p["a1"], p["a2"])
OPS["reshape"] = lambda M, a, p: (a[0].reshape(tuple(p["s"])) if p.get("fn", 0) == 0 else
                                  M.m.reshape(a[0], tuple(p["s"])) if p["fn"] == 1 else a[0].reshape(*p["s"]))
OPS["ravel"] = lambda M, a, p: a[0].ravel() if p.get("fn", 0) == 0 else M.m.ravel(a[0])
def _flip(M, a, p):
    if not p["axes"]:
        return M.m.flip(a[0])
    return M.m.flip(a[0], p["axes"][0] if len(p["axes"]) == 1 else tuple(p["axes"]))
OPS["flip"] = _flip
OPS["fliplr"] = lambda M, a, p: M.m.fliplr(a[0])
OPS["flipud"] = lambda M, a, p: M.m.flipud(a[0])
OPS["squeeze"] = lambda M, a, p: M.m.squeeze(a[0]) if p.get("fn", 1) else a[0].squeeze()
OPS["squeeze_ax"] = lambda M, a, p: a[0].squeeze(p["axis"])
OPS["expand_dims"] = lambda M, a, p: M.m.expand_dims(a[0], p["axis"])
OPS["broadcast_to"] = lambda M, a, p: M.m.broadcast_to(a[0], tuple(p["s"]))
OPS["broadcast_arrays"] = lambda M, a, p: (M.m.broadcast_arrays(*a) if M.nd is np.ndarray else M.m.broadcast_arrays(list(a)))
OPS["diagonal"] = lambda M, a, p: M.m.diagonal(a[0]) if p.get("fn", 1) else a[0].diagonal()
OPS["atleast_1d"] = lambda M, a, p: M.m.atleast_1d(a[0])
OPS["atleast_2d"] = lambda M, a, p: M.m.atleast_2d(a[0])
OPS["atleast_3d"] = lambda M, a, p: M.m.atleast_3d(a[0])
OPS["rot90"] = lambda M, a, p: M.m.rot90(a[0], p["k"])
def _split(fn):
    def f(M, a, p):
        arg = p["k"] if p["m"] == 1 else list(p["idx"])
        return Multi(list(getattr(M.m, fn)(a[0], arg, axis=p["axis"])))
    return f
OPS["split"] = _split("split")
OPS["array_split"] = _split("array_split")
OPS["unstack"] = lambda M, a, p: Multi(list(M.m.unstack(a[0], axis=p["axis"])))
OPS["real_view"] = lambda M, a, p: M.m.real(a[0])
OPS["same"] = lambda M, a, p: M.m.asarray(a[0])

# ---------------------------------------------------------------- copies and read-outs
OPS["copy"] = lambda M, a, p: (a[0].copy() if p.get("fn", 0) == 0 else M.m.copy(a[0]) if p["fn"] == 1
                               else a[0].flatten().reshape(a[0].shape))
OPS["flatten"] = lambda M, a, p: a[0].flatten() if p.get("fn", 0) == 0 else M.m.ravel(a[0].copy())
OPS["tolist"] = lambda M, a, p: Py(a[0].tolist())
OPS["tobytes"] = lambda M, a, p: np.frombuffer(a[0].tobytes(), dtype=str(a[0].dtype)).copy()
OPS["iter"] = lambda M, a, p: Multi([x for x in a[0]])
OPS["flat"] = lambda M, a, p: Py([x for x in a[0].flat])
OPS["shape"] = lambda M, a, p: Py(list(a[0].shape))
OPS["meta"] = lambda M, a, p: Py([a[0].ndim, a[0].size, a[0].itemsize, a[0].nbytes])
OPS["item_at"] = lambda M, a, p: float(a[0][tuple(p["ix"])]) if not np.iscomplexobj(np.asarray(a[0])) else complex(a[0][tuple(p["ix"])])

# ---------------------------------------------------------------- writers
@op("setitem_sc")
def _(M, a, p):
    x = np.asarray(a[0]) if p.get("np", 0) else a[0]      # through the zero-copy NumPy view
    x[getkey(p)] = val(p["v"], p["d"])
@op("setitem")
def _(M, a, p):
    a[0][getkey(p)] = a[1]
@op("fill")
def _(M, a, p):
    a[0].fill(val(p["v"], p["d"]))
@op("put")
def _(M, a, p):
    v = [val(x, p["d"]) for x in p["v"]]
    if p.get("fn", 0):
        M.m.put(a[0], M.m.array(p["ind"], dtype="int64") if p["ind"] else mk(M, dict(s=[0], d="int64", v=[])),
                mk(M, dict(s=[len(v)], d=p["d"], v=p["v"])))
    else:
        a[0].put(p["ind"], v)
@op("place")
def _(M, a, p):
    M.m.place(a[0], a[1], mk(M, dict(s=[len(p["v"])], d=p["d"], v=p["v"])))
@op("putmask")
def _(M, a, p):
    M.m.putmask(a[0], a[1], mk(M, dict(s=[len(p["v"])], d=p["d"], v=p["v"])))
@op("copyto")
def _(M, a, p):
    if len(a) == 3:
        M.m.copyto(a[0], a[1], where=a[2])
    else:
        M.m.copyto(a[0], a[1])
@op("fill_diagonal")
def _(M, a, p):
    M.m.fill_diagonal(a[0], val(p["v"], p["d"]))
@op("put_along_axis")
def _(M, a, p):
    M.m.put_along_axis(a[0], a[1], a[2], p["axis"])
@op("msort")
def _(M, a, p):
    a[0].sort(axis=p["axis"])

# ---------------------------------------------------------------- element-wise
import operator as _o
OPERATOR = {"add": _o.add, "subtract": _o.sub, "multiply": _o.mul, "divide": _o.truediv, "floor_divide": _o.floordiv,
            "remainder": _o.mod, "power": _o.pow, "bitwise_and": _o.and_, "bitwise_or": _o.or_, "bitwise_xor": _o.xor,
            "left_shift": _o.lshift, "right_shift": _o.rshift, "equal": _o.eq, "not_equal": _o.ne, "less": _o.lt,
            "less_equal": _o.le, "greater": _o.gt, "greater_equal": _o.ge}
ALIAS = {"divide": "true_divide", "remainder": "mod", "power": "pow"}
def same_array(x, y):
    """equal elements, NaN with NaN, zeros with their sign"""
    if x.dtype != y.dtype or x.shape != y.shape:
        return False
    e = (x == y) | ((x != x) & (y != y))
    if x.dtype.kind == "f":
        e &= (np.signbit(x) == np.signbit(y)) | (x != x)
    return bool(e.all())
def big_bin(M, F, a, b, h):
    """The operation on the operands repeated beyond the size from which temporaries are reused;
    the first period is the result, the others must equal it and named operands stay as they were."""
    x, y = np.array(a).reshape(-1), np.array(b).reshape(-1)
    n = x.size
    k = 33000 // n + 1
    X, Y = np.tile(x, k), np.tile(y, k)
    B = M.m.asarray(Y)
    if h == 0:                 # a temporary
        r = F(M.m.asarray(X), B)
    elif h == 1:               # a named array
        A = M.m.asarray(X)
        r = F(A, B)
    elif h == 2:               # a temporary view of a named array
        A = M.m.asarray(X)
        r = F(A.reshape((k, n)).reshape((k * n,)), B)
    elif h == 3:               # a temporary with a living view
        L = [M.m.asarray(X)]
        A = L[0][:]
        r = F(L.pop(), B)
    elif h == 4:               # a temporary slice, not at the start of its buffer
        A = M.m.asarray(np.concatenate([X[:n], X]))
        r = F(A[n:], B)
        A = A[n:]
    else:                      # the same array twice
        r = F(B, B) if same_array(x, y) else F(M.m.asarray(X), B)
    r = np.array(r)
    assert same_array(r, np.tile(r[:n], k)), "result differs between repetitions"
    assert same_array(np.array(B), Y), "second operand changed"
    if 1 <= h <= 4:
        assert same_array(np.array(A), X), "first operand changed"
    return M.m.asarray(r[:n].reshape(tuple(a.shape)))
def big_conv(M, f, x, y, mode, size):
    """Convolution of the operands embedded in long runs of zeros (the transform-based path)."""
    n, m, (N, L) = x.size, y.size, size
    X, Y = np.zeros(N), np.zeros(L)
    s, t = N // 2 - 8, L // 2 - 8
    X[s:s + n], Y[t:t + m] = np.array(x), np.array(y)
    r = np.array(getattr(M.m, f)(M.m.asarray(X), M.m.asarray(Y), mode=mode))
    big, lit = max(N, L), min(N, L)
    start, size = {"full": (0, N + L - 1), "same": (lit // 2 if f == "correlate" and N < L else (lit - 1) // 2, big),
                   "valid": (lit - 1, big - lit + 1)}[mode]
    assert r.shape == (size,), "length of the result"
    off = s + (t if f == "convolve" else L - t - m) - start
    q = np.round(r * 4096) / 4096
    out = q[off:off + n + m - 1].copy()
    q[off:off + n + m - 1] = 0
    assert not q.any(), "non-zero outside the support"
    return M.m.asarray(out)
@op("bin")
def _(M, a, p):
    f = p["f"]
    if p["m"] == 3:
        return big_bin(M, OPERATOR[f], a[0], a[1], p["h"])
    if p["m"] == 1:
        return OPERATOR[f](a[0], a[1])
    if f == "isclose":
        return M.m.isclose(a[0], a[1], rtol=val(p["rtol"], "float64"), atol=val(p["atol"], "float64"), equal_nan=bool(p["eqnan"]))
    if p["m"] == 2 and f in ALIAS:
        f = ALIAS[f]
    return getattr(M.m, f)(a[0], a[1])
@op("binsc")
def _(M, a, p):
    v = val(p["v"], p["vd"])
    if M.nd is np.ndarray and p["f"] not in ("divide",):
        pass
    return OPERATOR[p["f"]](v, a[0]) if p["left"] else OPERATOR[p["f"]](a[0], v)
UNOP = {"negative": _o.neg, "absolute": _o.abs, "invert": _o.invert}
@op("un")
def _(M, a, p):
    f = p["f"]
    if p["m"] == 1 and f in UNOP:
        return UNOP[f](a[0])
    if p["m"] == 2:
        f = {"absolute": "abs", "conj": "conjugate", "invert": "bitwise_not"}.get(f, f)
    r = getattr(M.m, f)(a[0])
    return np.array(r) if M.nd is np.ndarray and f in ("real", "imag") else r
OPS["trans"] = lambda M, a, p: getattr(M.m, {"arcsin": "asin", "arctan": "atan"}.get(p["f"], p["f"]) if p["m"] else p["f"])(a[0])
OPS["trans2"] = lambda M, a, p: getattr(M.m, p["f"])(a[0], a[1])
OPS["frexp"] = lambda M, a, p: M.m.frexp(M.m.ldexp(a[0], M.m.full((), p["k"], dtype="int64")) if p["k"] else a[0])
def _flat(x):
    return [x] if not isinstance(x, list) else [z for y in x for z in _flat(y)]
def ulp_units(M, x, r, d, p):
    """(r - x) elementwise in units of the last place of 1.0 (of the smallest number at zero), exactly"""
    from fractions import Fraction as Fr
    bits, low = {"float16": (10, 24), "float32": (23, 149), "float64": (52, 1074)}[d]
    def one(u, v):
        if u != u or v != v:
            return float("nan")
        if u == v:
            return 0.0
        if u in (float("inf"), float("-inf")) or v in (float("inf"), float("-inf")):
            return v - u
        return float((Fr(v) - Fr(u)) * 2 ** (low if u == 0 else bits))
    q = [one(u, v) for u, v in zip(_flat(x.tolist()), _flat(r.tolist()))]
    return M.m.array(q, dtype="float64").reshape(tuple(r.shape)) if q else M.m.zeros(tuple(r.shape), dtype="float64")
@op("nextafter")
def _(M, a, p):
    r = M.m.nextafter(a[0], a[1])
    assert str(r.dtype) == p["d"]
    return ulp_units(M, M.m.broadcast_to(a[0], tuple(r.shape)), r, p["d"], p)
@op("spacing")
def _(M, a, p):
    r = M.m.spacing(a[0])
    assert str(r.dtype) == p["d"] and tuple(r.shape) == tuple(a[0].shape)
    from fractions import Fraction as Fr
    # the spacing as a distance from the operand
    bits, low = {"float32": (23, 149), "float64": (52, 1074)}[p["d"]]
    q = [v if v != v or v in (float("inf"), float("-inf")) else float(Fr(v) * 2 ** (low if u == 0 else bits))
         for u, v in zip(_flat(a[0].tolist()), _flat(r.tolist()))]
    return M.m.array(q, dtype="float64").reshape(tuple(r.shape)) if q else M.m.zeros(tuple(r.shape), dtype="float64")
@op("ldexp")
def _(M, a, p):
    sg = 1 if p["k1"] > 0 else -1
    k1 = (p["k1"], sg * (2**31 - 1), sg * (2**32 + 1))[p["wide"]]
    k = [M.m.asarray(np.full(tuple(a[0].shape) if p["m"] else (), n, dtype=p["kd"])) for n in (k1, p["k2"])]
    return M.m.ldexp(M.m.ldexp(a[0], k[0]), k[1])
OPS["modf"] = lambda M, a, p: M.m.modf(a[0])
@op("nan_to_num")
def _(M, a, p):
    return M.m.nan_to_num(a[0], nan=val(p["nan"], "float64"), posinf=val(p["pinf"], "float64"), neginf=val(p["ninf"], "float64"))
@op("clip")
def _(M, a, p):
    lo = val(p["lo"], "float64") if p["hlo"] else None
    hi = val(p["hi"], "float64") if p["hhi"] else None
    if M.nd is np.ndarray:
        k = a[0].dtype
        return np.clip(a[0], None if lo is None else k.type(lo), None if hi is None else k.type(hi))
    return M.m.clip(a[0], lo, hi) if p["m"] == 0 else a[0].clip(lo, hi)
OPS["divmod"] = lambda M, a, p: M.m.divmod(a[0], a[1])
def _dt(M, x):
    return mk(M, dict(s=[], d=str(x), v=[[0, 1, 0, 1] if str(x).startswith("complex") else [0, 1]]))
@op("promote")
def _(M, a, p):
    d = M.m.promote_types(p["d1"], p["d2"])
    return np.zeros((), dtype=str(d).replace("<class '", ""))
@op("dtq")
def _(M, a, p):
    q = p["q"]; f = getattr(M.m, q)
    if q == "can_cast":
        return bool(f(p["d1"], p["d2"], p["c"]) if p["pos"] else f(p["d1"], p["d2"], casting=p["c"]))
    if q == "issubdtype":
        return bool(f(p["d1"], getattr(np, p["c"]) if p["pos"] or M.m is np else p["c"]))
    if q == "isdtype":
        c = tuple(p["c"])
        return bool(f(np.dtype(p["d1"]) if M.m is np else p["d1"], c[0] if len(c) == 1 else c))
    args = [M.m.zeros((2,), dtype=d) if q == "common_type" or k else d for d, k in zip(p["ds"], p["arr"])]
    d = f(*args)
    return np.zeros((), dtype=getattr(d, "__name__", None) or str(d))
def read_text(t):
    """The nested list a bracketed text stands for, and the number of ellipses in it."""
    toks = re.findall(r"\[|\]|\.\.\.|[^\[\],\s]+", t)
    dots = 0
    stack, top = [], None
    for k in toks:
        if k == "[":
            stack.append([])
        elif k == "]":
            x = stack.pop()
            if stack:
                stack[-1].append(x)
            else:
                assert top is None
                top = x
        elif k == "...":
            dots += 1
        else:
            v = k == "True" if k in ("True", "False") else int(k) if re.fullmatch(r"[+-]?\d+", k) else \
                complex(k) if "j" in k else float(k)
            if stack:
                stack[-1].append(v)
            else:
                assert top is None
                top = v
    assert not stack
    return top, dots
def flat_kind(x):
    while isinstance(x, list):
        if not x:
            return "float64"
        x = x[0]
    return {bool: "bool", int: "int64", float: "float64", complex: "complex128"}[type(x)]
@op("print")
def _(M, a, p):
    if p["f"] == "str":
        x, dots = read_text(str(a[0]))
        return (Py(x), Py([dots]))
    t = repr(a[0])
    m = re.fullmatch(r"array\((.*?)(?:,\s*shape=\(([\d, ]*)\))?(?:,\s*dtype=(\w+))?\)", t, re.S)
    x, dots = read_text(m[1])
    out = (Py(x), Py([dots]), np.zeros((), dtype=m[3] or flat_kind(x)))
    if dots:
        out += (Py([int(k) for k in m[2].replace(",", " ").split()] if m[2] is not None else list(np.asarray(a[0]).shape) if M.m is np else []),)
    return out
@op("shares")
def _(M, a, p):
    return bool(getattr(M.m, p["f"])(a[0], a[1]))
@op("array_equal")
def _(M, a, p):
    return bool(M.m.array_equal(a[0], a[1]))
@op("allclose")
def _(M, a, p):
    return bool(M.m.allclose(a[0], a[1], rtol=val(p["rtol"], "float64"), atol=val(p["atol"], "float64"), equal_nan=bool(p["eqnan"])))
@op("broadcast_shapes")
def _(M, a, p):
    return Py(list(M.m.broadcast_shapes(*[tuple(s) for s in p["ss"]])))
@op("where3")
def _(M, a, p):
    return M.m.where(a[0], a[1], a[2])

# ---------------------------------------------------------------- reductions
def _axis(p):
    if p["none"]:
        return None
    return p["ax"][0] if len(p["ax"]) == 1 and not p.get("tup", 0) else tuple(p["ax"])
@op("red")
def _(M, a, p):
    f, kw = p["f"], {}
    isnp = M.nd is np.ndarray
    if p["keep"]:
        kw["keepdims"] = True
    if f == "moment":
        if isnp:
            x = a[0].astype(float)
            return ((x - x.mean(axis=_axis(p), keepdims=True)) ** p["k"]).mean(axis=_axis(p), **kw)
        return a[0].moment(p["k"], axis=_axis(p), **kw)
    if f == "count_nonzero" and p["none"] and not isnp:
        return M.m.count_nonzero(a[0])
    if isnp and f in ("sum", "prod", "nansum", "nanprod"):
        kw["dtype"] = a[0].dtype
    ax = () if p["none"] and p.get("noarg", 0) else (_axis(p),)
    if p["m"] == 1:
        r = getattr(a[0], f)(*ax, **kw)
    else:
        r = getattr(M.m, f)(a[0], *ax, **kw)
    if f in ("std", "nanstd"):
        if M.is_arr(r) if hasattr(M, "is_arr") else isinstance(r, np.ndarray):
            r = np.asarray(r)
            return (r * r).astype(r.dtype)
        return r * r
    return r
@op("waverage")
def _(M, a, p):
    return M.m.average(a[0], axis=_axis(p), weights=a[1])
@op("cum")
def _(M, a, p):
    f = p["f"]
    kw = {}
    if M.nd is np.ndarray:
        kw["dtype"] = a[0].dtype
    if f.startswith("cumulative"):
        return getattr(M.m, f)(a[0], axis=p["axis"], include_initial=bool(p["init"]), **kw)
    if p["m"] == 1:
        return getattr(a[0], f)(**kw) if p["none"] else getattr(a[0], f)(axis=p["axis"], **kw)
    return getattr(M.m, f)(a[0], **kw) if p["none"] else getattr(M.m, f)(a[0], axis=p["axis"], **kw)
OPS["diff"] = lambda M, a, p: M.m.diff(a[0], n=p["ord"], axis=p["axis"])
@op("ediff1d")
def _(M, a, p):
    d = str(a[0].dtype)
    kw = {}
    if p["b"]:
        kw["to_begin"] = mk(M, dict(s=[len(p["b"])], d=d, v=p["b"]))
    if p["e"]:
        kw["to_end"] = mk(M, dict(s=[len(p["e"])], d=d, v=p["e"]))
    return M.m.ediff1d(a[0], **kw)
OPS["gradient"] = lambda M, a, p: M.m.gradient(a[0]) if p["h"] == [1, 1] else M.m.gradient(a[0], val(p["h"], "float64"))
@op("trapezoid")
def _(M, a, p):
    kw = dict(dx=val(p["dx"], "float64"), axis=p["axis"])
    return M.m.trapezoid(a[0], **kw)
OPS["trapezoid_x"] = lambda M, a, p: M.m.trapezoid(a[0], a[1])

# ---------------------------------------------------------------- sorting, sets, searching
def _srt(fn):
    def f(M, a, p):
        kw = {}
        if M.nd is np.ndarray and fn in ("sort", "argsort"):
            kw["kind"] = "stable"
        ax = None if p["none"] else p["axis"]
        if p.get("m") == 1:
            return getattr(a[0], fn)(axis=ax, **kw)
        if p.get("m") == 2:
            return getattr(M.m, fn)(a[0], **kw)       # default axis: the last
        return getattr(M.m, fn)(a[0], axis=ax, **kw)
    return f
OPS["sort"] = _srt("sort")
OPS["argsort"] = _srt("argsort")
OPS["lexsort"] = lambda M, a, p: M.m.lexsort(tuple(a))
@op("unique")
def _(M, a, p):
    r = getattr(M.m, p["f"])(a[0])
    return Multi(list(r)) if isinstance(r, tuple) else r
OPS["set2"] = lambda M, a, p: getattr(M.m, p["f"])(a[0], a[1])
@op("isin")
def _(M, a, p):
    if M.nd is np.ndarray and p["f"] == "in1d":
        return np.isin(a[0], a[1], invert=bool(p["inv"])).reshape(-1)
    return getattr(M.m, p["f"])(a[0], a[1], invert=True) if p["inv"] else getattr(M.m, p["f"])(a[0], a[1])
@op("searchsorted")
def _(M, a, p):
    r = M.m.searchsorted(a[0], a[1], side="right" if p["right"] else "left")
    return np.array(r) if M.nd is np.ndarray else r
@op("digitize")
def _(M, a, p):
    r = M.m.digitize(a[0], a[1], right=bool(p["right"]))
    return np.array(r) if M.nd is np.ndarray else r
@op("nonzero")
def _(M, a, p):
    if p["f"] == "nonzero":
        return Multi(list(M.m.nonzero(a[0]) if p.get("m", 0) == 0 else a[0].nonzero()))
    return getattr(M.m, p["f"])(a[0])
@op("bincount")
def _(M, a, p):
    return M.m.bincount(a[0], minlength=p["minlength"])
def _part(fn):
    def f(M, a, p):
        ax = None if p["none"] else p["axis"]
        if p.get("m") == 1:
            return getattr(a[0], fn)(p["kth"])        # along the last axis
        if p.get("m") == 2:
            return getattr(M.m, fn)(a[0], p["kth"])
        return getattr(M.m, fn)(a[0], p["kth"], axis=ax)
    return f
OPS["partition"] = _part("partition")
OPS["argpartition"] = _part("argpartition")
@op("mpartition")
def _(M, a, p):
    a[0].partition(p["kth"])

# ---------------------------------------------------------------- joining, rearranging, gathering
@op("join")
def _(M, a, p):
    f, isnp = p["f"], M.nd is np.ndarray
    if f in ("concatenate", "concat", "stack"):
        return getattr(M.m, f)(list(a)) if p.get("dflt") else getattr(M.m, f)(list(a), axis=p["axis"])
    if f == "append":
        return M.m.append(a[0], a[1]) if p["none"] else M.m.append(a[0], a[1], axis=p["axis"])
    if f == "block":
        if p["depth"] == 1:
            return M.m.block(list(a))
        out, k = [], 0
        for r in p["rows"]:
            out.append(list(a[k:k + r]))
            k += r
        return M.m.block(out)
    if f == "row_stack" and isnp:
        f = "vstack"
    return getattr(M.m, f)(list(a))
@op("rearr")
def _(M, a, p):
    f, x, m = p["f"], a[0], M.m
    isnp = M.nd is np.ndarray
    ax = {} if p.get("none", 1) else {"axis": p["axis"]}
    if f == "roll":
        return m.roll(x, p["shift"], **ax)
    if f == "tile":
        return m.tile(x, p["reps"][0] if len(p["reps"]) == 1 and p.get("m") else tuple(p["reps"]))
    if f == "repeat":
        if p.get("m") and not isnp:
            return x.repeat(p["reps"], **ax)
        return m.repeat(x, p["reps"], **ax)
    if f == "pad":
        w = tuple(tuple(t) for t in p["w"])
        if p.get("m") == 1:
            w = w[0][0]
        elif p.get("m") == 2:
            w = w[0]
        if p["mode"] == "constant":
            if p["v"] == [0, 1] and not isnp:
                return m.pad(x, w)
            return m.pad(x, w, mode="constant", constant_values=val(p["v"], "float64"))
        return m.pad(x, w, mode=p["mode"])
    if f in ("tril", "triu", "diag", "diagflat"):
        return getattr(m, f)(x, k=p["k"]) if p["k"] or p.get("m") else getattr(m, f)(x)
    if f == "trim_zeros":
        return m.trim_zeros(x, ("f" if p["front"] else "") + ("b" if p["back"] else ""))
    if f == "resize":
        return m.resize(x, tuple(p["s"]))
    if f == "delete":
        return m.delete(x, p["ind"], **ax)
@op("insert")
def _(M, a, p):
    ax = {} if p["none"] else {"axis": p["axis"]}
    return M.m.insert(a[0], p["ind"], a[1], **ax)
@op("gather")
def _(M, a, p):
    f, m = p["f"], M.m
    ax = {} if p.get("none", 1) else {"axis": p["axis"]}
    isnp = M.nd is np.ndarray
    if f == "take":
        ind = a[1]
        if p.get("m") == 1 and not isnp and a[1].ndim == 1:
            ind = a[1].tolist()
        if p.get("m") == 2:
            return a[0].take(ind, **ax)
        return m.take(a[0], ind, **ax)
    if f == "fancy":
        if p.get("m") == 1 and a[1].ndim == 1 and a[1].size:
            return a[0][[int(k) for k in a[1].tolist()]]
        return a[0][a[1]]
    if f == "mask":
        return a[0][a[1]]
    if f == "take_along_axis":
        return m.take_along_axis(a[0], a[1], p["axis"])
    if f == "compress":
        c = [bool(t) for t in a[0].tolist()] if p.get("m") == 1 else a[0]
        return m.compress(c, a[1], **ax)
    if f == "extract":
        return m.extract(a[0], a[1])
    if f == "choose":
        return m.choose(a[0], list(a[1:]))
    if f == "select":
        n = p["m"]
        d = val(p["v"], "float64")
        if isnp:
            dt = np.result_type(*a[n:])
            return np.select(list(a[:n]), list(a[n:]), default=dt.type(d)) 
        return m.select(list(a[:n]), list(a[n:]), default=d)
OPS["xsplit"] = lambda M, a, p: Multi(list(getattr(M.m, p["f"])(a[0], p["k"])))

@op("contract")
def _(M, a, p):
    f, m, isnp = p["f"], M.m, M.m is np
    if f == "einsum":
        s = "".join(map(chr, p["subs"]))
        return m.einsum(s, *a)
    if f == "tensordot":
        return m.tensordot(a[0], a[1], p["m"] if p["m"] >= 0 else (list(p["xa"]), list(p["xb"])))
    if f in ("matrix_power",):
        return m.linalg.matrix_power(a[0], p["m"])
    if f == "multi_dot":
        return m.linalg.multi_dot(list(a))
    if f == "trace":
        return m.trace(a[0])
    if f == "matmul" and p["m"]:
        return a[0] @ a[1]
    if f == "dot" and p["m"]:
        return a[0].dot(a[1])
    return getattr(m, f)(a[0], a[1])

# ---------------------------------------------------------------- black boxes
import builtins, math
_CODE = {}
def _expr(f):
    if f not in _CODE:
        _CODE[f] = compile(f, "call", "eval")
    return _CODE[f]
OPS["call"] = lambda M, a, p: eval(_expr(p["f"]), {"m": M.m, "a": a})
@op("poke")
def _(M, a, p):
    if M.is_arr(a[0]) and a[0].size:
        if M.nd is np.ndarray:
            if not a[0].flags.writeable:
                return
        a[0].fill(val(p["v"], "float64"))

# ---------------------------------------------------------------- large operands
import zlib
def _bigdata(p):
    R = np.random.RandomState(p["s"])
    out = []
    for d in p["d"]:
        n = p["n"]
        if d == "bool":
            x = R.randint(0, 2, n).astype(bool)
        elif d.startswith(("int", "uint")):
            ii = np.iinfo(d)
            w = R.randint(0, 2**63, n, dtype="uint64") * np.uint64(2) + R.randint(0, 2, n).astype("uint64")
            x = w.astype(d)
            k = R.rand(n) < 0.3
            x[k] = R.randint(0, 9, n)[k]
            if p["v"] == 1:
                x = R.randint(0, 100, n).astype(d)
            x[x == 0] = 1
        else:
            x = (R.randint(-4000, 4000, n) / 16.0).astype(d)
            if p["v"] == 2:
                x[R.rand(n) < 0.01] = np.nan
        out.append(x)
    return out
def _digest(r):
    """two 30-bit digests of the values of a result (signs of zero and NaN payloads ignored)"""
    out = []
    for x in (r if isinstance(r, (tuple, list)) else [r]):
        x = np.array(np.asarray(x))
        b = str((x.dtype, x.shape)).encode()
        if x.dtype.kind in "fc":
            x = x + x.dtype.type(0)
            x[np.isnan(x)] = np.nan
        b += x.tobytes()
        out += [zlib.crc32(b) & 0x3fffffff, zlib.adler32(b) & 0x3fffffff]
    return out
@op("big")
def _(M, a, p):
    X = _bigdata(p)
    m, mode = M.m, p["m"]
    A = (lambda x: x) if M.nd is np.ndarray else m.asarray
    f = _expr(p["f"])
    keep = []
    if mode == "chunk":
        parts = []
        for i in range(0, p["n"], 700):
            y = [A(x[i:i + 700].copy()) for x in X]
            parts.append(np.asarray(eval(f, {"m": m, "a": y})).copy())
        return Py(_digest(np.concatenate(parts))), Py([1])
    if mode == "temp":                  # operands are temporaries of the expression
        src = p["f"].replace("a[0]", "a(0)").replace("a[1]", "a(1)")
        r = eval(src, {"m": m, "a": lambda j: A(X[j].copy())})
        return Py(_digest(r)), Py([1])
    ops_ = []
    for j, x in enumerate(X):
        if mode == "named" or (mode == "half" and j != 0):
            y = A(x.copy())
        elif mode in ("strided", "half"):
            z = np.zeros(2 * len(x), dtype=x.dtype)
            z[::2] = x
            z[1::2] = x[0]
            y = A(z)[::2]
        elif mode == "rev":
            y = A(x[::-1].copy())[::-1]
        elif mode == "alias":           # another handle keeps the memory alive
            y = A(x.copy())
            keep.append(y[:5])
            keep.append(y.T)
        elif mode == "offset":
            y = A(np.concatenate([x[:3], x]))[3:]
        ops_.append(y)
    r = eval(f, {"m": m, "a": ops_})
    same = all(np.array_equal(np.asarray(y), x, equal_nan=x.dtype.kind in "fc") for y, x in zip(ops_, X))
    return Py(_digest(r)), Py([int(same)])

# ---------------------------------------------------------------- conversion and interchange
@op("astype")
def _(M, a, p):
    fn = p["fn"]
    return a[0].astype(p["d"]) if fn == 0 else M.m.asarray(a[0], dtype=p["d"]) if fn == 1 else M.m.array(a[0], dtype=p["d"])
def lay(x, l):
    """The NumPy array x in another memory layout / byte order."""
    if x.ndim == 0 and not l.startswith("be"):
        return x
    if l == "F":
        return np.asfortranarray(x)
    if l == "T":
        return np.ascontiguousarray(x.T).T
    if l == "rev":
        return x[tuple(slice(None, None, -1) for _ in x.shape)].copy()[tuple(slice(None, None, -1) for _ in x.shape)]
    if l == "step":
        y = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
        y[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return y[tuple(slice(None, None, 2) for _ in x.shape)]
    if l == "beT" and x.ndim:
        return np.ascontiguousarray(x.T.astype(x.dtype.newbyteorder(">"))).T
    if l in ("be", "beT"):
        return x.astype(x.dtype.newbyteorder(">"))
    if l == "ro":
        x = x.copy()
        x.setflags(write=False)
        return x
    return x
@op("asarray_np")
def _(M, a, p):
    x = lay(nparr(p), p["lay"])
    f = M.m.array if p["fn"] else M.m.asarray
    return f(x, dtype=p["to"]) if p["to"] else np.array(x, dtype=p["d"]) if M.m is np else f(x)
@op("fromlist")
def _(M, a, p):
    it = iter([{"f": float, "i": int, "b": bool}[k](dec(v, "float64" if k == "f" else "int64")) for v, k in zip(p["v"], p["kd"])])
    def build(s):
        return next(it) if not s else [build(s[1:]) for _ in range(s[0])]
    x = build(p["s"])
    if p["ragged"]:
        x = x + [x[0][:-1]] if len(p["s"]) > 1 else x + [[1]]
    f = M.m.asarray if p["fn"] else M.m.array
    return f(x, dtype=p["to"]) if p["to"] else f(x)
@op("scalar")
def _(M, a, p):
    f = p["f"]
    if M.m is np and a[0].size == 1:
        a = [a[0].reshape(())]
    return (a[0].item() if f == "item" else int(a[0]) if f == "int" else float(a[0]) if f == "float" else
            complex(a[0]) if f == "complex" else bool(a[0]))
OPS["bview"] = lambda M, a, p: a[0].view(p["d"])
OPS["frombuffer"] = lambda M, a, p: M.m.frombuffer(bytes(p["b"]), p["d"], p["count"], p["off"])
@op("order")
def _(M, a, p):
    f, kw = p["f"], {}
    if p["to"]:
        kw["dtype"] = p["to"]
    r = (M.m.ascontiguousarray(a[0], **kw) if f == "C" else M.m.asfortranarray(a[0], **kw) if f == "F" else
         M.m.require(a[0], p["to"] or None, f[1]))
    n = np.asarray(r)
    return [r, bool(n.flags.c_contiguous if f[-1] == "C" else n.flags.f_contiguous)]
@op("roundtrip")
def _(M, a, p):
    x, d, k = a[0], str(a[0].dtype), p["m"]
    s = tuple(np.asarray(x).shape)
    if k == 0:
        return M.m.frombuffer(x.tobytes(), d).reshape(s)
    if k == 1:
        return M.m.ascontiguousarray(x).view(p["d"]).view(d).reshape(s)
    if k == 2:
        return M.m.array(x.tolist(), dtype=d)
    if k == 3:
        import pickle
        return M.m.asarray(pickle.loads(x.dumps()))
    if k == 4:
        return x.astype(p["d"]).astype(d)
    return M.m.asarray(np.asarray(x))

# ---------------------------------------------------------------- grids and index utilities
def pyval(v, d):
    return dec(v, "float64" if d in ("float64", "f") else "bool" if d == "bool" else d)
@op("grid")
def _(M, a, p):
    f, m, isnp = p["f"], M.m, M.nd is np.ndarray
    kw = {}
    if f == "full":
        s, fn = tuple(p["s"]), p["fn"]
        s = s[0] if len(s) == 1 and fn % 2 else s
        if p["v"] == [0, 1] and fn < 2:
            return (m.zeros if fn == 0 else m.zeros)(s, dtype=p["d"])
        if p["v"] == [1, 1] and fn < 2:
            return m.ones(s, dtype=p["d"])
        return m.full(s, dec(p["v"], p["vd"]), dtype=p["d"])
    if f == "full_like":
        if p["to"]:
            kw["dtype"] = p["to"]
        if p["v"] == [0, 1] and p["fn"] == 0:
            return m.zeros_like(a[0], **kw)
        if p["v"] == [1, 1] and p["fn"] == 0:
            return m.ones_like(a[0], **kw)
        return m.full_like(a[0], dec(p["v"], p["vd"]), **kw)
    if f == "arange":
        n = (lambda v: dec(v, "float64")) if p["fl"] else (lambda v: dec(v, "int64"))
        if p["to"]:
            kw["dtype"] = p["to"]
        if p["na"] == 1:
            return m.arange(n(p["stop"]), **kw)
        if p["na"] == 2:
            return m.arange(n(p["start"]), n(p["stop"]), **kw)
        return m.arange(n(p["start"]), n(p["stop"]), n(p["step"]), **kw)
    if f == "linspace":
        if p["to"]:
            kw["dtype"] = p["to"]
        return m.linspace(dec(p["start"], "float64"), dec(p["stop"], "float64"), p["num"], **kw)
    if f == "logspace":
        return m.logspace(float(p["start"]), float(p["stop"]), p["num"], base=float(p["base"]))
    if f == "geomspace":
        s, r = dec(p["start"], "float64"), dec(p["r"], "float64")
        return m.geomspace(s, s * r ** (p["num"] - 1), p["num"])
    if f == "eye":
        return m.identity(p["n"], dtype=p["d"]) if p["fn"] else m.eye(p["n"], dtype=p["d"])
    if f == "tri":
        return m.tri(p["n"], p["m"], p["k"], p["d"])
    if f == "indices":
        return m.indices(tuple(p["s"]), dtype=p["d"])
    if f == "meshgrid":
        return Multi(list(m.meshgrid(*a, indexing="ij" if p["ij"] else "xy")))
    if f in ("mgrid", "ogrid"):
        k = tuple(slice(x[0], x[1], x[2]) for x in p["k"])
        r = getattr(m, f)[k[0] if len(k) == 1 else k]
        return r if len(k) == 1 else Multi(list(r))
    if f == "diag_indices":
        return Multi(list(m.diag_indices(p["n"], p["m"])))
    if f == "diag_indices_from":
        return Multi(list(m.diag_indices_from(a[0])))
    if f in ("tril_indices", "triu_indices"):
        if p["mask"]:
            return Multi(list(m.mask_indices(p["n"], m.tril if f == "tril_indices" else m.triu, p["k"])))
        return Multi(list(getattr(m, f)(p["n"], p["k"], p["m"])))
    if f in ("tril_indices_from", "triu_indices_from"):
        return Multi(list(getattr(m, f)(a[0], p["k"])))
    if f == "unravel_index":
        return Multi(list(m.unravel_index(p["i"] if p["sc"] else a[0], tuple(p["s"]), order=p["o"])))
    if f == "ravel_multi_index":
        return m.ravel_multi_index(tuple(a), tuple(p["s"]), mode=p["mode"], order=p["o"])
    if f == "packbits":
        return m.packbits(a[0], axis=p["axis"] if p["ha"] else None, bitorder=p["o"])
    if f == "unpackbits":
        return m.unpackbits(a[0], axis=p["axis"] if p["ha"] else None, count=p["count"] if p["hc"] else None, bitorder=p["o"])
    if f == "ix_":
        return Multi(list(m.ix_(*a)))
    if f == "ndindex":
        return Py([list(x) for x in (m.ndindex(*p["s"]) if p["fn"] else m.ndindex(tuple(p["s"])))])
    if f == "ndenumerate":
        q = list(m.ndenumerate(a[0]))
        return Multi([Py([list(i) for i, _ in q]), Py([v.item() if isnp else v for _, v in q])])
    if f == "broadcast_shapes":
        return Py(list(m.broadcast_shapes(*[tuple(s) for s in p["ss"]])))
    if f == "fromfunction":
        def g(*ix):
            r = p["c"]
            for w, x in zip(p["w"], ix):
                r = x * w + r
            return r
        return np.fromfunction(g, tuple(p["s"]), dtype="float64").astype(p["d"]) if isnp else m.fromfunction(tuple(p["s"]), g, p["d"])
    if f in ("bartlett", "hanning", "hamming", "blackman"):
        return getattr(m, f)(p["m"])
    if f in ("fftfreq", "rfftfreq"):
        return getattr(m.fft, f)(p["n"], dec(p["dd"], "float64"))
    if f in ("fftshift", "ifftshift"):
        return getattr(m.fft, f)(a[0])
    raise ValueError(f)

# ------------------------------------------------ linear algebra and transforms
FXK = 8192
def fx(x, k=FXK):
    """Fixed-point integers of scale k (complex: trailing axis of length 2)."""
    a = np.array(np.asarray(x))
    if a.dtype.kind == "c":
        a = np.stack([a.real, a.imag], -1)
    a = np.asarray(a, "float64") * k
    return np.where(np.isfinite(a) & (np.abs(a) < 2**30 - 1), np.rint(np.where(np.isfinite(a), a, 0)), 2.0**30 - 1).astype("int64")
DTC = {"float64": 8, "complex128": 16, "float32": 4, "complex64": 9}
def dts(*xs):
    return np.array([DTC.get(str(np.asarray(x).dtype), 0) for x in xs], "int64")
def fxs(*xs):
    return Multi([dts(*xs)] + [fx(x) for x in xs])
@op("la")
def _(M, a, p):
    f, m, isnp = p["f"], M.m, M.m is np
    L = m.linalg
    if isnp:
        a = [x.astype("float64") for x in a]
    sv = lambda z: L.svd(z, full_matrices=False)
    if f == "solve":
        return L.solve(*a)
    if f in ("inv", "det"):
        return getattr(L, f)(a[0])
    if f == "slogdet":
        s, l = L.slogdet(a[0])
        return Multi([float(s), math.exp(l)])
    if f == "qr":
        return fxs(*L.qr(a[0]))
    if f == "svd":
        return fxs(*sv(a[0]))
    if f == "svdvals":
        return fxs(L.svdvals(a[0]), *sv(a[0]))
    if f == "svnorm":
        nrm = (lambda o: L.norm(a[0], o if o == "nuc" else int(o))) if isnp else (lambda o: (L.norm if p["fn"] else L.matrix_norm)(a[0], ord=o))
        U, S, V = sv(a[0])
        s0, sk = float(np.asarray(S)[0]), float(np.asarray(S)[-1])
        c, ci = (L.cond(a[0]), L.cond(a[0], -2)) if isnp else (L.cond(a[0]), L.cond(a[0], p="-2"))
        g = sk > 1e-6
        v = [nrm("nuc"), nrm("2"), nrm("-2"), c * sk if g else s0, ci * s0 if g else sk]
        return Multi([dts(U), fx(v), fx(U), fx(S), fx(V)])
    if f == "eigh":
        return fxs(*L.eigh(a[0]))
    if f == "eigvalsh":
        return fxs(L.eigvalsh(a[0]), *L.eigh(a[0]))
    if f == "eigvals":
        return fxs(np.asarray(L.eigvals(a[0])).astype("complex128"))
    if f == "eig":
        w, v = L.eig(a[0])
        v = np.array(np.asarray(v)).astype("complex128")
        return fxs(np.asarray(w).astype("complex128"), v / np.sqrt((np.abs(v) ** 2).sum(0)))
    if f == "cholesky":
        return fxs(L.cholesky(a[0]))
    if f == "matrix_rank":
        return int(L.matrix_rank(a[0]))
    if f == "pinv":
        return L.pinv(a[0])
    if f == "lstsq":
        x, r, k, s = L.lstsq(a[0], a[1])
        return Multi([x, r, int(k), fx(s)])
    if f == "matrix_power":
        return L.matrix_power(a[0], p["m"])
    if f == "vector_norm":
        o = p["o"]
        kw = {"ord": float(o)} if o else {}
        r = float(np.linalg.norm(np.ravel(a[0]), **kw) if isnp else L.vector_norm(a[0], **kw))
        return round(r ** 3, 6) if o == "3" else r * r if o in ("", "2") else r
    if f in ("norm", "matrix_norm"):
        o = p["o"]
        if isnp:
            if o == "fro" and a[0].ndim == 1:
                o = "2"
            r = np.linalg.norm(a[0], ord=o if o == "fro" else float(o)) if o else np.linalg.norm(a[0])
        else:
            r = getattr(L, f)(a[0], ord=o) if o else getattr(L, f)(a[0])
        r = float(r)
        return r * r if o in ("", "2", "fro") else r
    if f == "tensorsolve":
        return L.tensorsolve(a[0], a[1], axes=tuple(p["ax"]) if isnp else list(p["ax"])) if p["ax"] else L.tensorsolve(a[0], a[1])
    if f == "tensorinv":
        return L.tensorinv(a[0], ind=p["ind"])
@op("dft")
def _(M, a, p):
    f, m, isnp = p["f"], M.m, M.m is np
    F = m.fft
    kw = {}
    if isnp:
        a = [a[0].astype("complex128" if a[0].dtype.kind == "c" else "float64")]
    g = getattr(F, f)
    if f in ("fftn", "ifftn", "rfftn", "irfftn") and p["axes"]:
        kw["axes"] = list(p["ax"])
    if f in ("irfft2", "irfftn") and p["sh"]:
        kw["s"] = list(p["sh"])
        if isnp and f == "irfftn":
            ax = list(p["ax"])
            kw["s"] = [p["sh"][x] for x in ax]
            kw["axes"] = ax
    if f == "hfft" and p["sh"]:
        kw["n"] = p["nn"]
    r = g(a[0], **kw)
    return Multi([int(dts(r)[0]), fx(r, 16384)])

# ---------------------------------------------------------------- statistics, polynomials (Q01)
def fv(v):
    return float(dec(v, "float64"))
@op("stat")
def _(M, a, p):
    f, m, isnp = p["f"], M.m, M.m is np
    if isnp and f not in ("bincount", "polyder", "polyint"):
        a = [x.astype("float64") for x in a]
    w0 = lambda r: np.asarray(r).reshape(1) if isnp and np.ndim(r) == 0 else r
    if f == "quantile":
        pc = p["fn"].endswith("percentile")
        q = [fv(x) * (100 if pc else 1) for x in p["q"]]
        g = getattr(m, p["fn"])
        kw = {} if p["none"] else {"axis": p["axis"]}
        r = g(a[0], q[0] if p["sc"] else q, **kw)
        if isnp:
            if not p["none"] and a[0].ndim == 1 and not p["sc"]:
                r = r.reshape(len(q), 1)
            elif p["none"] and np.ndim(r) == 0 and not p["sc"]:
                r = np.array([float(r)] * len(q))
        return w0(r)
    rng = lambda r: None if not r else (fv(r[0]), fv(r[1]))
    if f == "histogram":
        g = m.histogram_bin_edges if p["edges"] else m.histogram
        kw = {} if not p["r"] else {"range": rng(p["r"])}
        return g(a[0], p["b"], **kw) if not p["dflt"] else g(a[0], **kw)
    if f in ("histogram2d", "histogramdd"):
        b = list(p["bs"])
        kw = {}
        if any(p["rs"]):
            kw["range"] = [list(rng(r)) for r in p["rs"]]
        if p["dens"]:
            kw["density"] = True
        kw["bins"] = b[0] if p["one"] else b
        if f == "histogram2d":
            return m.histogram2d(a[0], a[1], **kw)
        h, e = m.histogramdd(a[0].reshape(-1, 1) if isnp and a[0].ndim == 1 else a[0], **kw)
        return [h] + list(e)
    if f == "bincount":
        return m.bincount(a[0], minlength=p["ml"]) if p["ml"] else m.bincount(a[0])
    if f == "cov":
        r = m.cov(a[0], ddof=p["ddof"])
        return r.reshape((1,) if a[0].ndim == 1 else (1, 1)) if isnp and r.ndim == 0 else r
    if f == "corrcoef":
        r = m.corrcoef(a[0])
        if isnp:
            r = np.asarray(r).reshape((1, 1)) if np.ndim(r) == 0 else r
        else:
            r = np.asarray(r)
        return M.m.asarray(np.abs(r) * r)
    if f in ("convolve", "correlate") and p.get("big"):
        return big_conv(M, f, a[0], a[1], p["bmode"], p["ext"])
    if f in ("convolve", "correlate"):
        return getattr(m, f)(a[0], a[1], p["mode"])
    if f == "interp":
        kw = {}
        if p["l"]:
            kw["left"] = fv(p["l"])
        if p["r"]:
            kw["right"] = fv(p["r"])
        return m.interp(a[0], a[1], a[2], **kw)
    if f == "gradient":
        ar = [a[1]] if len(a) == 2 else [] if p["h"] == [1, 1] else [fv(p["h"])]
        kw = {"axis": p["axis"][0]} if p["axis"] else {}
        if isnp and len(a) == 2 and not p["axis"]:
            kw["axis"] = 0
        return m.gradient(a[0], *ar, **kw)
    if f == "trapezoid":
        return w0(m.trapezoid(a[0], a[1], axis=p["axis"]))
    if f == "polyval":
        return m.polyval(a[0], a[1])
    if f == "polyder":
        r = m.polyder(a[0], p["m"])
        return r.astype("float64") if isnp and p["m"] else r
    if f == "polyint":
        r = m.polyint(a[0], p["m"], *a[1:])
        return r.astype("float64") if isnp and p["m"] else r
@op("polyfit")
def _(M, a, p):
    if M.m is np:
        a = [x.astype("float64") for x in a]
    return M.m.polyfit(a[0], a[1], p["deg"], **({"w": a[2]} if len(a) == 3 else {}))
@op("roots")
def _(M, a, p):
    r = M.m.roots(a[0].astype("float64") if M.m is np else a[0])
    return r

# ------------------------------------------------------------------ files
import os as _os, struct as _struct
def chs(c):
    return "".join(map(chr, c))
def scratch(M):
    """The directory of the running program's files (created empty on first use)."""
    d = M.ctx.get("dir")
    if d is None:
        d = _os.path.join(_os.environ["VSCRATCH"], "w%d" % _os.getpid())
        _os.makedirs(d, exist_ok=True)
        for f in _os.listdir(d):
            _os.unlink(_os.path.join(d, f))
        M.ctx["dir"] = d
    return d
def fpath(M, n, ext):
    """ext by kind of access: .npz archives are recognised by their name."""
    d = scratch(M)
    return _os.path.join(d, "no", "such", "f" + ext) if n < 0 else _os.path.join(d, "f%d%s" % (n, ext))
def pext(p):
    return ".npz" if p.get("npz") else ".npy" if "npz" in p else ".dat"
def fmtstr(f):
    if f["c"] == "":
        return ""
    return chs(f["pre"]) + "%" + ("+" if f["plus"] else "") + ("-" if f["minus"] else "") + (" " if f["blank"] else "") + \
        ("0" if f["zero"] else "") + (str(f["w"]) if f["w"] else "") + ("." + str(f["k"]) if f["k"] >= 0 else "") + f["c"] + chs(f["suf"])
@op("fsave")
def _(M, a, p):
    m = np if p["by"] == "np" else M.m
    x = [np.asarray(z) for z in a] if p["by"] == "np" else a
    if p["by"] == "np" and p["order"] == "F":
        x = [np.asfortranarray(z) if z.ndim else z for z in x]
    if p["by"] == "np" and p["swap"]:
        x = [z.astype(z.dtype.newbyteorder(">")) for z in x]
    fn = fpath(M, p["file"], pext(p))
    if not p["npz"]:
        return m.save(fn, x[0])
    k = len(x) - len(p["names"])
    f = m.savez_compressed if p["comp"] else m.savez
    f(fn, *x[:k], **{chs(n): z for n, z in zip(p["names"], x[k:])})
@op("fload")
def _(M, a, p):
    m = np if p["by"] == "np" else M.m
    r = m.load(fpath(M, p["file"], pext(p)))
    nat = lambda z: z.astype(z.dtype.newbyteorder("=")) if p["by"] == "np" else z
    if not p["npz"]:
        return Multi([nat(r)])
    ks = list(r.keys())
    return Multi([nat(r[k]) for k in ks] + [Py(ks)])
@op("finfo")
def _(M, a, p):
    b = open(fpath(M, p["file"], pext(p)), "rb").read()
    if b[:6] != b"\x93NUMPY":
        return np.array([-1])
    pre = 10 if b[6] == 1 else 12
    h = _struct.unpack("<H" if pre == 10 else "<I", b[8:pre])[0]
    return np.array([b[6], (pre + h) % 64, b[pre + h - 1], len(b) - pre - h])
@op("ftofile")
def _(M, a, p):
    fn = fpath(M, p["file"], ".dat")
    if not p["sep"]:
        return a[0].tofile(fn)
    a[0].tofile(fn, chs(p["sep"]), fmtstr(p["fm"]))
@op("ffromfile")
def _(M, a, p):
    kw = {}
    if p["sep"]:
        kw["sep"] = chs(p["sep"])
    if p["off"]:
        kw["offset"] = p["off"]
    return M.m.fromfile(fpath(M, p["file"], ".dat"), dtype=p["d"], count=p["count"], **kw)
@op("fwrite")
def _(M, a, p):
    with open(fpath(M, p["file"], ".dat"), "wb") as f:
        f.write(bytes(p["b"]))
@op("fread")
def _(M, a, p):
    with open(fpath(M, p["file"], ".dat"), "rb") as f:
        return np.frombuffer(f.read(), dtype="uint8").astype("int64")
@op("ftrunc")
def _(M, a, p):
    fn = fpath(M, p["file"], pext(p))
    n = _os.path.getsize(fn)
    cut = min(p["cut"], n)
    _os.truncate(fn, n - cut)
@op("fremove")
def _(M, a, p):
    _os.unlink(fpath(M, p["file"], pext(p)))
@op("fdamage")
def _(M, a, p):
    fn = fpath(M, p["file"], pext(p))
    b = bytearray(open(fn, "rb").read())
    k = p["kind"]
    if p["npz"]:
        import zipfile
        with zipfile.ZipFile(fn) as z:
            infos = z.infolist()
        i = infos[p["m"] % len(infos)]
        ln, le = _struct.unpack("<HH", b[i.header_offset + 26:i.header_offset + 30])
        st = i.header_offset + 30 + ln + le
        b[st + (p["pos"] * i.compress_size) // 1000] ^= 1 << (p["m"] % 8)
    else:
        hl = _struct.unpack("<H", bytes(b[8:10]))[0]
        h, data = b[10:10 + hl].decode("latin1").rstrip(), bytes(b[10 + hl:])
        import re
        sh = re.search(r"'shape': \(([^)]*)\)", h).group(1)
        rep = lambda s: h.replace("(" + sh + ")", s)
        pre = bytes(b[:8])
        if k == "magic": pre = pre[:p["m"] % 6] + bytes([pre[p["m"] % 6] ^ 1]) + pre[p["m"] % 6 + 1:]
        elif k == "version": pre = pre[:6] + bytes([[0, 4, 9, 255][p["m"] % 4], 0])
        elif k == "letters": h = rep("(x" + sh + ")")
        elif k == "huge": h = rep("(%d, %d)" % (2 ** 62, 8)) if p["m"] % 2 else rep("(%d,)" % 10 ** 13)
        elif k == "wide": h = rep("(%d, 2)" % 2 ** 64)
        elif k == "negative": h = rep("(-3,)")
        elif k == "longer": h = rep("(" + ", ".join([str(int(x) + (j == 0)) for j, x in enumerate(y for y in sh.split(",") if y.strip())]) + ",)")
        elif k == "dtype": h = re.sub(r"'descr': '[^']*'", "'descr': '%s'" % ["<q9", "|O", "<f3", "", "V8"][p["m"] % 5], h)
        elif k == "nokey": h = h.replace(["fortran_order", "descr", "shape"][p["m"] % 3], "zzz")
        elif k == "order": h = h.replace("False", "Maybe").replace("True", "Maybe")
        elif k == "noparen": h = h.replace(")", " ")
        elif k == "empty": pre = h = data = None
        elif k == "utf8": h = h + " \xff"
        if pre is None:
            b = b""
        else:
            n = 65000 if k == "hlen" else len(h) + 1
            b = pre + _struct.pack("<H", n) + h.encode("latin1") + b"\n" + data
    with open(fn, "wb") as f:
        f.write(b)
@op("fsavetxt")
def _(M, a, p):
    kw = dict(fmt=fmtstr(p["fm"]), delimiter=chs(p["delim"]), newline=chs(p["nl"]), comments=chs(p["com"]))
    if p["header"]:
        kw["header"] = chs(p["header"])
    if p["footer"]:
        kw["footer"] = chs(p["footer"])
    M.m.savetxt(fpath(M, p["file"], ".dat"), a[0], **kw)
@op("floadtxt")
def _(M, a, p):
    kw = dict(dtype=p["d"], comments=chs(p["com"]))
    if p["delim"]:
        kw["delimiter"] = chs(p["delim"])
    if p["usecols"] != [-1]:
        kw["usecols"] = p["usecols"]
    if p["maxr"] >= 0:
        kw["max_rows"] = p["maxr"]
    fn = fpath(M, p["file"], ".dat")
    isnp = M.m is np
    if p["gen"]:
        kw.update(skip_header=p["skip"], skip_footer=p["foot"], filling_values=val(p["fill"], "float64"))
        if p["missing"]:
            kw["missing_values"] = chs(p["missing"])
        return M.m.genfromtxt(fn, **kw)
    if isnp:
        r = M.m.loadtxt(fn, skiprows=p["skip"], ndmin=2, **kw)
        return r[:, 0] if r.ndim == 2 and r.shape[1] == 1 else r
    return M.m.loadtxt(fn, skiprows=p["skip"], **kw)
@op("fdumps")
def _(M, a, p):
    import pickle
    if p["to"]:
        fn = fpath(M, 90, ".pkl")
        a[0].dump(fn)
        with open(fn, "rb") as f:
            return pickle.load(f)
    return pickle.loads(a[0].dumps())

# ---------------------------------------------------------------- random generators
@op("rnew")
def _(M, a, p):
    G = M.ctx.setdefault("g", {})
    n = sum(b << (8 * i) for i, b in enumerate(p["seed"]))
    if p["kind"] == "pcg":
        inc = sum(b << (8 * i) for i, b in enumerate(p["inc"]))
        if M.m is np:
            bg = np.random.PCG64DXSM(0)
            bg.state = {"bit_generator": "PCG64DXSM", "state": {"state": n, "inc": inc}, "has_uint32": 0, "uinteger": 0}
            G[p["g"]] = np.random.Generator(bg)
        else:
            G[p["g"]] = M.m.random.Generator.from_numpy_state(n, inc)
    else:
        G[p["g"]] = M.m.random.default_rng(n) if p["kind"] == "seed" or M.m is np else M.m.random.Generator(n)
RINT = {"integers", "poisson", "binomial", "geometric", "negative_binomial", "hypergeometric", "zipf", "multinomial"}
RU = {"binomial": [0], "hypergeometric": [0, 1, 2], "multinomial": [0]}
def rargs(p):
    f, x = p["f"], p["x"]
    if f == "integers":
        return [dec(v, "int64") for v in x]
    x = [dec(v, "int64") if i in RU.get(f, []) else fv(v) for i, v in enumerate(x)]
    if f in ("multinomial", "dirichlet"):
        x.append([fv(v) for v in p["w"]])
    if f == "multivariate_normal":
        x += [[fv(v) for v in p["w"]], [[fv(v) for v in r] for r in p["c"]]]
    return x
def rsize(p):
    if p["none"]:
        return None
    s = tuple(p["size"])
    return s[0] if len(s) == 1 else s
def rfloor(r, q):
    y = np.floor(np.asarray(r, "float64") * q)
    return np.where(np.isnan(y), 2.0**30 - 1, np.clip(y, -2.0**29 + 1, 2.0**29 - 1)).astype("int64")
@op("rand")
def _(M, a, p):
    g, f = M.ctx["g"][p["g"]], p["f"]
    isnp = M.m is np
    if f == "random_raw":
        r = int(g.bit_generator.random_raw()) if isnp else g.random_raw()
        return Py([r >> 11, r & 2047])
    if f == "permutation":
        return g.permutation(a[0] if a else dec(p["x"][0], "int64"))
    if f == "choice":
        pop = a[0] if a else dec(p["x"][0], "int64")
        if isnp and a:
            pop = pop.ravel()
        r = g.choice(pop, rsize(p), replace=bool(p["rep"])) if p["kwrep"] else g.choice(pop, rsize(p))
        return float(r) if p["none"] else r
    kw = {} if p["none"] else {"size": rsize(p)}
    r = getattr(g, f)(*rargs(p), **kw)
    if isnp and p["none"] and f in ("multinomial", "dirichlet", "multivariate_normal"):
        r = r[None]
    if f in RINT:
        return r - 1 if isnp and f == "geometric" else r
    if p["none"] and f not in ("dirichlet", "multivariate_normal"):
        if type(r) is not float and not isnp:
            return Multi([r])
        if f == "random":
            return Multi([int(r * 2.0**53) if (r * 2.0**53).is_integer() else -1])
        return Multi([int(np.array(r).view("int64")), int(rfloor(r, 16.0))])
    z = np.asarray(r)
    if z.dtype != np.float64:
        return Multi([r])
    if f == "random":
        k = z * 2.0**53
        return np.where(k == np.floor(k), k, -1).astype("int64")
    return Multi([np.ascontiguousarray(z).view("int64").reshape(z.shape), rfloor(z, 2.0**20 if f == "dirichlet" else 16.0)])
@op("rshuf")
def _(M, a, p):
    return M.ctx["g"][p["g"]].shuffle(a[0])
@op("rmoment")
def _(M, a, p):
    g, f, N = M.ctx["g"][p["g"]], p["f"], 4096
    if f == "covariance":
        r = np.asarray(g.multivariate_normal(*rargs(dict(p, f="multivariate_normal")), size=N)) - np.array([fv(v) for v in p["w"]])
        r = r[:, p["col"]] * r[:, p["col2"]]
    else:
        r = np.asarray(getattr(g, f)(*rargs(p), size=N)).astype("float64")
        if f in ("dirichlet", "multivariate_normal"):
            r = r[:, p["col"]]
        if M.m is np and f == "geometric":
            r = r - 1
    assert r.shape == (N,)
    y = np.array([np.mean(r), np.var(r)]) * 1000
    return np.rint(np.clip(y, -2.0**29, 2.0**29)).astype("int64")
@op("rcount")
def _(M, a, p):
    g, f, T, n = M.ctx["g"][p["g"]], p["f"], p["trials"], dec(p["x"][0], "int64")
    ar = lambda k: np.arange(k, dtype=p["d"]) if M.m is np else M.m.asarray(np.arange(k, dtype=p["d"]))
    if f in ("permutation", "shuffle", "permutation_array"):
        import itertools
        code = {t: i for i, t in enumerate(itertools.permutations(range(n)))}
        out = [0] * len(code)
        base = ar(n)
        for _ in range(T):
            if f == "permutation":
                r = g.permutation(n)
            elif f == "permutation_array":
                r = g.permutation(base)
            else:
                r = base.copy()
                g.shuffle(r)
            out[code[tuple(int(v) for v in np.asarray(r))]] += 1
        return np.array(out)
    if f == "pair":
        out = np.zeros(n * n, "int64")
        for _ in range(T):
            r = np.asarray(g.choice(ar(n), 2, replace=False))
            out[int(r[0]) * n + int(r[1])] += 1
        return out
    if f == "multinomial":
        # T draws in rows of 4: column totals are binomial in T
        return np.asarray(g.multinomial(4, [fv(v) for v in p["w"]], size=T // 4)).sum(0)
    if f == "choice":
        r = np.asarray(g.choice(ar(n), T))
        k = n
    elif f == "integers":
        lo = p["lo"]
        r = np.asarray(g.integers(lo, lo + n, size=T)) - lo
        k = n
    elif f == "geometric":
        r, k = np.asarray(g.geometric(0.5, size=T)), 5
        if M.m is np:
            r = r - 1
    elif f == "negative_binomial":
        r, k = np.asarray(g.negative_binomial(2, 0.5, size=T)), 5
    elif f == "binomial":
        r, k = np.asarray(g.binomial(n, fv(p["x"][1]), size=T)), n + 1
    else:
        x = [dec(v, "int64") for v in p["x"]]
        r, k = np.asarray(g.hypergeometric(*x, size=T)), x[2] + 1
    r = r.astype("int64")
    assert r.min() >= 0
    return np.bincount(r, minlength=k)[:k] if f in ("geometric", "negative_binomial") else np.bincount(r, minlength=k)

# ---------------------------------------------------------------- dates
DTU = ["", "Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns"]
def _txt(q):
    return "".join(map(chr, q))
@op("dtbin")
def _(M, a, p):
    x, y = a
    t = p.get("sy", 0)
    if t and p["f"] in DTSYM:
        return DTSYM[p["f"]](x, y)
    return getattr(M.m, p["f"])(x, y)
import operator as _o
DTSYM = dict(add=_o.add, subtract=_o.sub, multiply=_o.mul, divide=_o.truediv, floor_divide=_o.floordiv, remainder=_o.mod,
             less=_o.lt, less_equal=_o.le, greater=_o.gt, greater_equal=_o.ge, equal=_o.eq, not_equal=_o.ne)
OPS["dtcmp"] = OPS["dtbin"]
@op("dtun")
def _(M, a, p):
    return getattr(M.m, p["f"])(a[0])
@op("dtcast")
def _(M, a, p):
    k = "datetime64" if str(a[0].dtype).startswith("datetime") else "timedelta64"
    return a[0].astype("%s[%s]" % (k, DTU[p["u"]]))
@op("dtstr")
def _(M, a, p):
    r = M.m.datetime_as_string(a[0], DTU[p["u"]]) if p["u"] else M.m.datetime_as_string(a[0])
    r = np.array(r)
    return r.reshape(-1) if r.size else np.zeros(0, "<U1")
@op("dtparse")
def _(M, a, p):
    return M.m.array([_txt(q) for q in p["q"]], dtype="datetime64[%s]" % DTU[p["u"]])
OPS["dtfold"] = lambda M, a, p: (M.m.max if p["f"] == "maximum" else M.m.min)(a[0], axis=p["axis"])
OPS["dtdiff"] = lambda M, a, p: M.m.diff(a[0], p["n"], p["axis"])
@op("dtsort")
def _(M, a, p):
    if M.m is np:
        return np.argsort(a[0], axis=p["axis"], kind="stable") if p["arg"] else np.sort(a[0], axis=p["axis"])
    return (M.m.argsort if p["arg"] else M.m.sort)(a[0], axis=p["axis"])
@op("dtcat")
def _(M, a, p):
    return M.m.concatenate([a[0], a[1]], axis=0)
@op("biz")
def _(M, a, p):
    if p["f"] == "mask":
        return Py([bool(x) for x in np.asarray(M.m.busdaycalendar(_txt(p["mask"]), [_txt(h) for h in p["hol"]]).weekmask)])
    cal = None
    if not p.get("nocal"):
        cal = M.m.busdaycalendar(_txt(p["mask"]), [_txt(h) for h in p["hol"]])
    if p["f"] == "holidays":
        return cal.holidays
    def date(x):
        if p["form"] == "arr":
            return x
        t = np.datetime_as_string(np.asarray(x)).tolist()
        return t
    f = getattr(M.m, {"is": "is_busday", "offset": "busday_offset", "count": "busday_count"}[p["f"]])
    kw = dict(busdaycal=cal) if cal is not None else {}
    if p["f"] == "is":
        return f(date(a[0]), **kw)
    if p["f"] == "count":
        return f(date(a[0]), date(a[1]), **kw)
    o = a[1]
    if p["form"] == "str":
        o = int(np.asarray(o))
    elif p["form"] == "list":
        o = np.asarray(o).tolist()
    return f(date(a[0]), o, **kw)

# ---------------------------------------------------------------- text
def _bounds(p):
    """The optional start and end arguments."""
    if p["up"]:
        return (p["lo"][0] if p["lo"] else 0, p["up"][0])
    return (p["lo"][0],) if p["lo"] else ()
OPS["txun"] = OPS["txis"] = lambda M, a, p: getattr(M.m.char, p["f"])(a[0])
OPS["txlen"] = lambda M, a, p: M.m.char.str_len(a[0])
OPS["txbin"] = lambda M, a, p: M.m.char.add(a[0], a[1])
import operator as _operator
TXOPER = dict(equal="eq", not_equal="ne", less="lt", less_equal="le", greater="gt", greater_equal="ge")
OPS["txrel"] = lambda M, a, p: (getattr(_operator, TXOPER[p["f"]]) if p.get("via", 0) == 2 else getattr(M.m if p.get("via", 0) == 1 else M.m.char, p["f"]))(a[0], a[1])
OPS["txsame"] = lambda M, a, p: bool(M.m.array_equal(a[0], a[1]))
OPS["txstrip"] = lambda M, a, p: getattr(M.m.char, p["f"])(a[0], *([_txt(p["q"])] if p["has"] else []))
OPS["txfind"] = lambda M, a, p: getattr(M.m.char, p["f"])(a[0], _txt(p["q"]), *_bounds(p))
OPS["txreplace"] = lambda M, a, p: M.m.char.replace(a[0], _txt(p["q"]), _txt(p["r"]), *p["cnt"])
OPS["txpart"] = lambda M, a, p: getattr(M.m.char, p["f"])(a[0], _txt(p["q"]))
OPS["txpad"] = lambda M, a, p: getattr(M.m.char, p["f"])(a[0], p["w"], *([_txt(p["q"])] if p["q"] != [32] else []))
OPS["txzfill"] = lambda M, a, p: M.m.char.zfill(a[0], p["w"])
OPS["txtabs"] = lambda M, a, p: M.m.char.expandtabs(a[0], *([p["w"]] if p["w"] != 8 else []))
OPS["txjoin"] = lambda M, a, p: M.m.char.join(_txt(p["q"]), a[0])
OPS["txmul"] = lambda M, a, p: M.m.char.multiply(a[0], p["w"])

# ---------------------------------------------------------------- calls whose validity is in question
def _i64(M, x, s=None):
    return M.m.asarray(np.array(x, dtype="int64").reshape(s if s is not None else (len(x),)))
AXISF = ["sum", "prod", "mean", "max", "min", "argmax", "argmin", "all", "any", "std", "var", "median", "nansum", "nanprod", "nanmean",
         "nanmax", "nanmin", "nanargmax", "nanargmin", "nanstd", "nanvar", "cumsum", "cumprod", "sort", "argsort", "flip", "ptp", "average",
         "unwrap", "cumulative_sum", "nanmedian"]
METHF = ["sum", "prod", "mean", "max", "min", "argmax", "argmin", "all", "any", "std", "var", "sort", "argsort"]
PRE = {}       # (family, function) -> the call; families are those of spec/Errors.tla
for _f in AXISF:
    PRE["ax", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0], axis=p["ax"])
for _f in METHF:
    PRE["me", _f] = lambda M, a, p, _f=_f: getattr(a[0].copy(), _f)(axis=p["ax"])
for _f in ["concatenate", "append"]:
    PRE["concatenate", _f] = lambda M, a, p, _f=_f: M.m.concatenate(list(a), axis=p["ax"]) if _f[0] == "c" else M.m.append(a[0], a[1], axis=p["ax"])
for _f in ["vstack", "hstack", "dstack", "column_stack"]:
    PRE[_f, _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(list(a))
for _f in ["vsplit", "hsplit", "dsplit"]:
    PRE["nsplit", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0], p["k"])
for _f in ["tril", "triu", "fliplr", "flipud", "matrix_transpose", "rot90", "diagonal", "nonzero"]:
    PRE["atleast", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0])
for _f in ["det", "eig", "eigvals", "slogdet", "inv"]:
    PRE["square", _f] = lambda M, a, p, _f=_f: getattr(M.m.linalg, _f)(a[0])
for _f in ["qr", "svd", "pinv"]:
    PRE["exactly", _f] = lambda M, a, p, _f=_f: getattr(M.m.linalg, _f)(a[0])
for _f in ["add", "multiply", "divide", "floor_divide", "remainder", "power", "maximum", "minimum", "fmax", "fmin", "arctan2", "hypot",
           "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor", "copysign",
           "logaddexp", "isclose", "fmod"]:
    PRE["bcast", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0], a[1])
for _f in ["bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"]:
    PRE["bits", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0], a[1])
for _f in ["sin", "sqrt", "exp", "floor", "isnan", "square"]:
    PRE["numeric", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0])
for _f in ["subtract", "multiply", "maximum", "fmin"]:
    PRE["numeric", "2" + _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0], a[1])
PRE["numeric", "2-"] = lambda M, a, p: a[0] - a[1]
PRE["numeric", "2/"] = lambda M, a, p: a[0] / a[1]
for _f in ["max", "min", "argmax", "argmin", "ptp", "nanargmax", "nanmax"]:
    PRE["nonempty", _f] = lambda M, a, p, _f=_f: getattr(M.m, _f)(a[0])
PRE.update({
 ("axn", "percentile"): lambda M, a, p: M.m.percentile(a[0], p["k"], axis=p["ax"]),
 ("ax", "unstack"): lambda M, a, p: M.m.unstack(a[0], axis=p["ax"]),
 ("ax", "roll"): lambda M, a, p: M.m.roll(a[0], p["k"], p["ax"]),
 ("diff", "diff"): lambda M, a, p: M.m.diff(a[0], p["k"], p["ax"]),
 ("repeat", "repeat"): lambda M, a, p: M.m.repeat(a[0], p["k"], axis=p["ax"]),
 ("repeat", "merepeat"): lambda M, a, p: a[0].repeat(p["k"], axis=p["ax"]),
 ("take", "take"): lambda M, a, p: M.m.take(a[0], _i64(M, p["idx"]), axis=p["ax"]),
 ("delete", "delete"): lambda M, a, p: M.m.delete(a[0], p["k"], axis=p["ax"]),
 ("insert", "insert"): lambda M, a, p: M.m.insert(a[0], p["k"], 1, axis=p["ax"]),
 ("split", "split"): lambda M, a, p: M.m.split(a[0], p["k"], axis=p["ax"]),
 ("split", "array_split"): lambda M, a, p: M.m.array_split(a[0], p["k"], axis=p["ax"]),
 ("compress", "compress"): lambda M, a, p: M.m.compress([bool(x) for x in p["idx"]], a[0], axis=p["ax"]),
 ("partition", "partition"): lambda M, a, p: M.m.partition(a[0], p["k"], axis=p["ax"]),
 ("partition", "argpartition"): lambda M, a, p: M.m.argpartition(a[0], p["k"], axis=p["ax"]),
 ("stack", "stack"): lambda M, a, p: M.m.stack(list(a), axis=p["ax"]),
 ("expand_dims", "expand_dims"): lambda M, a, p: M.m.expand_dims(a[0], p["ax"]),
 ("swapaxes", "swapaxes"): lambda M, a, p: M.m.swapaxes(a[0], p["ax"], p["k"]),
 ("swapaxes", "meswapaxes"): lambda M, a, p: a[0].swapaxes(p["ax"], p["k"]),
 ("moveaxis", "moveaxis"): lambda M, a, p: M.m.moveaxis(a[0], p["ax"], p["k"]),
 ("rollaxis", "rollaxis"): lambda M, a, p: M.m.rollaxis(a[0], p["ax"], p["k"]),
 ("permute", "transpose"): lambda M, a, p: M.m.transpose(a[0], list(p["idx"])),
 ("permute", "permute_dims"): lambda M, a, p: M.m.permute_dims(a[0], list(p["idx"])),
 ("reshape", "reshape"): lambda M, a, p: M.m.reshape(a[0], tuple(p["s"])),
 ("reshape", "mereshape"): lambda M, a, p: a[0].reshape(tuple(p["s"])),
 ("broadcast_to", "broadcast_to"): lambda M, a, p: M.m.broadcast_to(a[0], tuple(p["s"])),
 ("rot90", "rot90"): lambda M, a, p: M.m.rot90(a[0], 1, (p["ax"], p["k"])),
 ("flatidx", "take"): lambda M, a, p: M.m.take(a[0], _i64(M, p["idx"])),
 ("flatidx", "put"): lambda M, a, p: M.m.put(a[0].copy(), _i64(M, p["idx"]), M.m.asarray(np.ones(1))),
 ("firstidx", "fancy"): lambda M, a, p: a[0][_i64(M, p["idx"])],
 ("mask", "mask"): lambda M, a, p: a[0][M.m.asarray(np.array(p["idx"], dtype="bool").reshape(p["s"]))],
 ("unravel", "unravel_index"): lambda M, a, p: M.m.unravel_index(_i64(M, p["idx"]), tuple(p["s"])),
 ("ravelmi", "ravel_multi_index"): lambda M, a, p: M.m.ravel_multi_index(tuple(_i64(M, x) for x in p["mi"]), tuple(p["s"])),
 ("choose", "choose"): lambda M, a, p: M.m.choose(_i64(M, p["idx"]), [a[0]] * p["k"]),
 ("bcast", "where"): lambda M, a, p: M.m.where(a[0], a[1], a[2]),
 ("bcast", "broadcast_arrays"): lambda M, a, p: M.m.broadcast_arrays(*a) if M.m is np else M.m.broadcast_arrays(list(a)),
 ("matmul", "matmul"): lambda M, a, p: M.m.matmul(a[0], a[1]),
 ("matmul", "at"): lambda M, a, p: a[0] @ a[1],
 ("dot", "dot"): lambda M, a, p: M.m.dot(a[0], a[1]),
 ("inner", "inner"): lambda M, a, p: M.m.inner(a[0], a[1]),
 ("tensordot", "tensordot"): lambda M, a, p: M.m.tensordot(a[0], a[1], p["k"]),
 ("solve", "solve"): lambda M, a, p: M.m.linalg.solve(a[0], a[1]),
 ("cross", "cross"): lambda M, a, p: M.m.cross(a[0], a[1]),
 ("bincount", "bincount"): lambda M, a, p: M.m.bincount(a[0]),
 ("interp", "interp"): lambda M, a, p: M.m.interp(a[0], a[1], a[2]),
 ("searchsorted", "searchsorted"): lambda M, a, p: M.m.searchsorted(a[0], a[1]),
 ("count", "linspace"): lambda M, a, p: M.m.linspace(0, 1, p["k"]),
 ("count", "geomspace"): lambda M, a, p: M.m.geomspace(1, 8, p["k"]),
 ("count", "logspace"): lambda M, a, p: M.m.logspace(0, 2, p["k"]),
 ("count", "eye"): lambda M, a, p: M.m.eye(p["k"]),
 ("count", "pad"): lambda M, a, p: M.m.pad(a[0], p["k"]),
 ("step", "arange"): lambda M, a, p: M.m.arange(0, 5, p["k"]),
 ("bins", "histogram"): lambda M, a, p: M.m.histogram(a[0], p["k"]),
 ("sizes", "zeros"): lambda M, a, p: M.m.zeros(tuple(p["s"])),
 ("sizes", "ones"): lambda M, a, p: M.m.ones(tuple(p["s"])),
 ("sizes", "full"): lambda M, a, p: M.m.full(tuple(p["s"]), 2.0),
 ("sizes", "tile"): lambda M, a, p: M.m.tile(a[0], tuple(p["s"])),
 ("percent", "percentile"): lambda M, a, p: M.m.percentile(a[0], p["k"]),
 ("percent", "quantile"): lambda M, a, p: M.m.quantile(a[0], p["k"] / 4),
 ("signal", "convolve"): lambda M, a, p: M.m.convolve(a[0], a[1]),
 ("signal", "correlate"): lambda M, a, p: M.m.correlate(a[0], a[1]),
 ("upto", "cov"): lambda M, a, p: M.m.cov(a[0]),
 ("matpow", "matrix_power"): lambda M, a, p: M.m.linalg.matrix_power(a[0], p["k"]),
 ("unpack", "unpackbits"): lambda M, a, p: M.m.unpackbits(a[0]),
 ("exactly", "fft"): lambda M, a, p: M.m.fft.fft(a[0]),
 ("exactly", "trace"): lambda M, a, p: M.m.trace(a[0]),
 ("exactly", "metrace"): lambda M, a, p: a[0].trace(),
 ("atleast", "mediagonal"): lambda M, a, p: a[0].diagonal(),
 ("same", "average"): lambda M, a, p: M.m.average(a[0], weights=a[1]),
 ("one", "item"): lambda M, a, p: a[0].item(),
 ("one", "float"): lambda M, a, p: float(a[0]),
 ("one", "bool"): lambda M, a, p: bool(a[0]),
 ("dtype", "astype"): lambda M, a, p: a[0].astype(p["nm"]),
 ("dtype", "zeros"): lambda M, a, p: M.m.zeros(3, dtype=p["nm"]),
 ("einsum", "einsum"): lambda M, a, p: M.m.einsum(",".join("".join(chr(96 + x) for x in l) for l in p["labs"]) + "->" + "".join(chr(96 + x) for x in p["out"]), *a),
})
@op("pre")
def _(M, a, p):
    PRE[p["g"], p["f"]](M, a, p)
    return None
