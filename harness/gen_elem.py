"""Element-wise functions: broadcasting (B01), promotion (P01), integers (I01), floats (N01)."""
import itertools
import numpy as np
from gen import *
from enc import enc_int

ARITH = ["add", "subtract", "multiply", "divide", "floor_divide", "remainder", "power"]
CMPF = ["equal", "not_equal", "less", "less_equal", "greater", "greater_equal"]
LOGF = ["logical_and", "logical_or", "logical_xor"]
BITF = ["bitwise_and", "bitwise_or", "bitwise_xor"]
SHIFT = ["left_shift", "right_shift"]
MM = ["maximum", "minimum"]
FM = ["fmax", "fmin"]
HASOP = set(ARITH + CMPF + BITF + SHIFT)
KIND = {"b": ["bool"], "i": SI, "u": UI, "f": FL, "c": CX}
def kind(d):
    return "b" if d == "bool" else "c" if d in CX else "f" if d in FL else "u" if d in UI else "i"
def res(d1, d2):
    return str(np.promote_types(d1, d2))
def ok(f, d1, d2):
    """Is f specified on operands of these dtypes (Elem.tla)?"""
    r = res(d1, d2)
    k = kind(r)
    if f in CMPF:
        return f in ("equal", "not_equal") or (kind(d1) != "c" and kind(d2) != "c")
    if f in LOGF:
        return True
    if f in BITF:
        return k in "biu"
    if f in SHIFT:
        return k in "iu"
    if k == "b":
        return f in ("add", "multiply", "maximum", "minimum", "fmax", "fmin")
    if k == "c":
        return f in ("add", "subtract", "multiply")
    if f == "power":
        return kind(d2) not in "bc" and d1 != "bool"
    if f == "divide":
        return d1 != "bool" and d2 != "bool"
    if f in ("floor_divide", "remainder", "fmod"):
        return d1 != "bool" and d2 != "bool"
    if f in FM:
        return k in "iuf"
    return True
def form(R, f):
    return R.choice([0, 1, 1, 2]) if f in HASOP else 0
def binp(R, f, sz=0):
    p = dict(f=f, m=form(R, f), sz=sz)
    return p
def opval(f, d1, d2, second):
    """Value generator suited to operand `second` of f (small and exact)."""
    r = res(d1, d2)
    def g(R, d):
        if d == "bool":
            return small(R, d)
        if f == "power" and second:
            return [R.randint(0, 3 if "16" in r else 4), 1]
        if f == "power":
            return smallint(R, d, -4, 5)
        if f == "divide" and second:
            if "float16" in (r, np.result_type(np.dtype(d1), np.float16).name) or "8" in d1 or "8" in d2:
                return [R.choice([1, 2, 4] if d in UI else [1, 2, 4, -2, -1]), 1]
            v = small(R, d)
            return v if v[0] else [1, 1]
        if f in ("floor_divide", "remainder", "fmod") and second and kind(d) != "f":
            v = smallint(R, d)
            return v if v[0] or kind(r) in "iu" else [2, 1]
        if f in SHIFT and second:
            return [R.randint(0, 7), 1]
        if kind(d) == "f" and kind(r) != "f":
            return smallint(R, d)
        return small(R, d)
    return g

def bcpair(R, n=2, bad=0.2):
    """n shapes, compatible with probability 1 - bad."""
    if R.random() < bad:
        return [tuple(R.choice([0, 1, 2, 3]) for _ in range(R.randint(0, 3))) for _ in range(n)]
    nd = R.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
    full = [R.choice([1, 2, 2, 3, 3, 4] + [0] * (R.random() < 0.15)) for _ in range(nd)]
    while prod(full) > 40:
        full[R.randrange(nd)] = 1
    out = []
    for _ in range(n):
        k = R.randint(0, nd) if R.random() < 0.4 else nd
        out.append(tuple(1 if R.random() < 0.3 else x for x in full[nd - k:]))
    return out

DT_BIN = ["float64"] * 3 + ["int64"] * 3 + ["float32", "float16", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool", "complex128", "complex64"]
ALLBIN = ARITH + CMPF + LOGF + BITF + MM + FM + SHIFT
@prop("B01", 5)
def bc_bin(R, i):
    P = Prog()
    s1, s2 = bcpair(R)
    for _ in range(20):
        f = R.choice(ALLBIN)
        d1, d2 = R.choice(DT_BIN), R.choice(DT_BIN)
        if R.random() < 0.5:
            d2 = d1
        if ok(f, d1, d2):
            break
    else:
        f, d1, d2 = "add", "float64", "float64"
    a = randarr(P, R, d1, s1, opval(f, d1, d2, False))
    b = a if R.random() < 0.04 and d1 == d2 and s1 == s2 and f in ("add", "maximum", "equal") else randarr(P, R, d2, s2, opval(f, d1, d2, True))
    P.add("bin", [a, b], **binp(R, f))
    if R.random() < 0.5 and f not in ("power", "divide"):
        P.add("bin", [b, a], **binp(R, f)) if f not in SHIFT and f not in ("floor_divide", "remainder") else None
    return P.done()
@prop("B01", 1)
def bc_views(R, i):
    P = Prog()
    n = R.randint(1, 4)
    ss = bcpair(R, n, 0.25)
    k = R.randrange(3)
    if k == 0:
        hs = [randarr(P, R, R.choice(ALL), s) for s in ss]
        P.run("broadcast_arrays", hs)
    elif k == 1:
        P.add("broadcast_shapes", [], ss=[list(s) for s in ss])
    else:
        h = randarr(P, R, R.choice(ALL), ss[0])
        t = ss[-1] if R.random() < 0.5 else [R.choice([1, 2, 3]) for _ in range(R.randint(0, 2))] + [x if x != 1 else R.choice([1, 2, 3]) for x in ss[0]]
        P.run("broadcast_to", [h], s=list(t))
    return P.done()
@prop("B01", 1.5)
def bc_where(R, i):
    P = Prog()
    s = bcpair(R, 3, 0.15)
    d = R.choice(ALL)
    c = randarr(P, R, "bool", s[0])
    a = randarr(P, R, d, s[1], extreme)
    b = randarr(P, R, d, s[2], extreme)
    P.add("where3", [c, a, b])
    return P.done()
@exhaustive("B01")
def bc_pairs(R, tier):
    sh = [()] + [(a,) for a in range(4)] + [(a, b) for a in range(4) for b in range(4)]
    if tier != "quick":
        sh += [(a, b, c) for a in range(4) for b in (0, 1, 2) for c in (1, 2)]
    for s1 in sh:
        for s2 in sh:
            P = Prog()
            f = R.choice(["add", "subtract", "multiply", "maximum", "less", "equal", "logical_xor", "floor_divide"])
            d = R.choice(["int64", "float64", "int32", "float32"])
            a = randarr(P, R, d, s1, smallint)
            b = randarr(P, R, d, s2, smallint if f != "floor_divide" else (lambda R, d: [R.choice([1, 2, 3]), 1]))
            P.add("bin", [a, b], **binp(R, f))
            yield P.done()

# ------------------------------------------------------------------ promotion
@exhaustive("P01")
def promo_table(R, tier):
    for d1 in ALL:
        P = Prog()
        for d2 in ALL:
            P.add("promote", [], d1=d1, d2=d2)
        yield P.done()
CATS = ["generic", "number", "integer", "signedinteger", "unsignedinteger", "inexact", "floating", "complexfloating", "bool_"]
ISD = ["bool", "signed integer", "unsigned integer", "integral", "real floating", "complex floating", "numeric"]
@exhaustive("P01")
def dt_cast(R, tier):
    for d1 in ALL:
        for c in ("no", "equiv", "safe", "same_kind", "unsafe"):
            P = Prog()
            for d2 in ALL:
                P.add("dtq", [], q="can_cast", d1=d1, d2=d2, c=c, pos=R.choice([0, 1]))
            yield P.done()
@exhaustive("P01")
def dt_category(R, tier):
    for d1 in ALL:
        P = Prog()
        for c in CATS:
            P.add("dtq", [], q="issubdtype", d1=d1, c=c, pos=R.choice([0, 1]))
        yield P.done()
        P = Prog()
        for c in ISD:
            P.add("dtq", [], q="isdtype", d1=d1, c=[c])
        for _ in range(4):
            P.add("dtq", [], q="isdtype", d1=d1, c=R.sample(ISD, R.choice([2, 3])))
        yield P.done()
@exhaustive("P01")
def dt_join(R, tier):
    for d1 in ALL:
        for d2 in ALL:
            P = Prog()
            for q in ("result_type", "common_type"):
                al = [d for d in ALL if d != "bool"] if q == "common_type" else ALL
                if q == "common_type" and "bool" in (d1, d2):
                    continue
                P.add("dtq", [], q=q, ds=[d1, d2], arr=[R.choice([0, 1]) for _ in range(2)])
                for d3 in al:
                    ds = [d1, d2, d3] + ([R.choice(al)] if R.random() < 0.3 else [])
                    P.add("dtq", [], q=q, ds=ds, arr=[R.choice([0, 1]) for _ in ds])
            yield P.done()
@exhaustive("P01")
def promo_ops(R, tier):
    fs = ARITH + CMPF + LOGF + BITF + MM + FM + SHIFT
    for d1 in ALL:
        for d2 in ALL:
            for f in fs:
                if not ok(f, d1, d2):
                    continue
                P = Prog()
                s1, s2 = R.choice([((2,), (2,)), ((2, 2), (2,)), ((), (3,)), ((0,), (0,)), ((3,), (1,)), ((1, 3), (2, 1)), ((9,), (9,))])
                a = randarr(P, R, d1, s1, opval(f, d1, d2, False))
                b = randarr(P, R, d2, s2, opval(f, d1, d2, True))
                P.add("bin", [a, b], **binp(R, f))
                yield P.done()
@exhaustive("P01")
def promo_un(R, tier):
    for d in ALL:
        for f in UN_BY_KIND[kind(d)] + PRED[kind(d)]:
            P = Prog()
            a = randarr(P, R, d, R.choice([(3,), (2, 2), (), (0,)]), unval(f))
            P.add("un", [a], f=f, m=R.choice([0, 1, 2]), sz=0)
            yield P.done()

# ------------------------------------------------------------------ unary
UN_BY_KIND = {"f": ["negative", "positive", "absolute", "sign", "square", "reciprocal", "sqrt", "floor", "ceil", "trunc", "fix", "rint", "round", "conj"],
              "i": ["negative", "positive", "absolute", "sign", "square", "floor", "ceil", "trunc", "rint", "round", "invert", "conj"],
              "u": ["positive", "absolute", "sign", "square", "floor", "ceil", "trunc", "rint", "round", "invert", "negative"],
              "b": ["invert"], "c": ["negative", "positive", "square", "conj"]}
PRED = {"f": ["isnan", "isinf", "isfinite", "signbit", "isneginf", "isposinf", "logical_not", "isreal", "iscomplex"],
        "i": ["isnan", "isinf", "isfinite", "logical_not", "signbit"], "u": ["isnan", "isinf", "isfinite", "logical_not"],
        "b": ["logical_not"], "c": ["isnan", "isinf", "isfinite", "logical_not", "isreal", "iscomplex"]}
def unval(f):
    def g(R, d):
        if f == "sqrt":
            k = [0, 1, 4, 9, 16, 25, 49]
            return [R.choice(k), R.choice([1, 4]) if d in FL else 1] if R.random() < 0.5 else [R.choice(k[1:]), 1]
        if f == "reciprocal":
            return [R.choice([1, 2, 4, -1, -2, 8]), 1]
        return small(R, d)
    def h(R, d):
        v = g(R, d)
        if f == "sqrt" and v[1] == 4 and v[0] % 2 == 0:
            v = [v[0], 1]
        return v
    return h

# ------------------------------------------------------------------ integers
INTF = ["add", "subtract", "multiply", "floor_divide", "remainder", "fmod", "power", "maximum", "minimum", "fmax", "fmin"] + BITF + SHIFT + ["gcd", "lcm"] + CMPF + LOGF
def wide(f, d1, d2, second):
    r = res(d1, d2)
    def g(R, d):
        if f == "power" and second:
            return [R.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, 31]), 1]
        if f in SHIFT and second:
            w = np.dtype(r).itemsize * 8
            return [R.choice([0, 1, 2, 3, 5, 7, w - 1, w // 2, w - 2, min(w, 127)]), 1]
        if kind(r) == "f" and f not in CMPF + LOGF:
            return smallint(R, d)
        if R.random() < 0.1:
            return [0, 1]
        return extreme(R, d)
    return g
def intshape(R):
    return (R.choice(LONG),) if R.random() < 0.12 else shape(R, maxnd=3)
def int_bin(R, i, fs=INTF):
    P = Prog()
    f = R.choice(fs)
    d1 = R.choice(INTS)
    d2 = d1 if R.random() < 0.75 else R.choice(INTS)
    if kind(res(d1, d2)) == "f" and f in BITF + SHIFT + ["gcd", "lcm", "fmod", "floor_divide", "remainder", "power"]:
        d2 = d1
    if f in ("gcd", "lcm", "power", "fmod"):
        d2 = d1
    s = intshape(R)
    s2 = s if R.random() < 0.7 else bcpair(R, 2, 0)[0] if not s else tuple(1 if R.random() < 0.3 else x for x in s[R.randint(0, len(s)):])
    a = randarr(P, R, d1, s, wide(f, d1, d2, False))
    b = randarr(P, R, d2, s2, wide(f, d1, d2, True))
    P.add("bin", [a, b], **binp(R, f))
    if f in ("floor_divide", "remainder") and d1 == d2:
        P.add("divmod", [a, b], n=2, sz=0)
    if f == "remainder" or R.random() < 0.15:
        P.add("array_equal", [a, b])
    return P.done()
prop("I01", 6)(int_bin)
@prop("I01", 1)
def int_un(R, i):
    P = Prog()
    d = R.choice(INTS)
    f = R.choice(UN_BY_KIND[kind(d)] + PRED[kind(d)])
    a = randarr(P, R, d, intshape(R), extreme)
    P.add("un", [a], f=f, m=R.choice([0, 1, 2]), sz=0)
    return P.done()
@prop("I01", 1)
def bool_bin(R, i):
    P = Prog()
    f = R.choice(BITF + LOGF + CMPF + ["add", "multiply", "maximum", "minimum"])
    s = intshape(R)
    a = randarr(P, R, "bool", s)
    b = randarr(P, R, "bool", s)
    P.add("bin", [a, b], **binp(R, f))
    P.add("un", [a], f=R.choice(["logical_not", "invert"]), m=R.choice([0, 1]), sz=0)
    return P.done()
@prop("I01", 1.5)
def int_scalar(R, i):
    """array op Python integer, on either side."""
    P = Prog()
    f = R.choice(["add", "subtract", "multiply", "floor_divide", "remainder"] + CMPF + BITF)
    d = R.choice(INTS)
    a = randarr(P, R, d, intshape(R), extreme)
    v = smallint(R, d, -9, 20) if R.random() < 0.6 else R.choice([extreme, smallint])(R, d)
    if len(v) == 7:
        v = smallint(R, d)
    P.add("binsc", [a], f=f, v=v, vd="int64", left=R.choice([0, 0, 1]), sz=0)
    return P.done()
@exhaustive("I01")
def int8_all(R, tier):
    """Every pair of int8/uint8 operand values for the 8-bit arithmetic (row i against all)."""
    step = 16 if tier == "quick" else 2
    for d in ("int8", "uint8"):
        for f in ["add", "subtract", "multiply", "floor_divide", "remainder", "gcd", "lcm", "less", "bitwise_xor", "maximum", "fmod"]:
            for lo in range(R.randrange(step), 256, step):
                P = Prog()
                x = lo + LO[d]
                a = mk(P, R, (256, 1), d, [[y, 1] for y in range(LO[d], HI[d] + 1)], R.choice(["c", "rev", "step"]))
                b = mk(P, R, (1,), d, [[x, 1]])
                P.add("bin", [a, b], **binp(R, f))
                yield P.done()
# ------------------------------------------------------------------ floats
def fspecial(R, d):
    return list(R.choice(SPECIAL + [[0, -1], [0, -1], [5, 4], [-7, 4], [3, 1], [100, 1]]))
def nz(g):
    def h(R, d):
        v = g(R, d)
        return [0, 1] if v == [0, -1] else v
    return h
NF = ["add", "subtract", "multiply", "divide", "floor_divide", "remainder", "fmod", "maximum", "minimum", "fmax", "fmin", "copysign", "heaviside"] + CMPF + LOGF + ["isclose", "power"]
def fshape(R):
    return (R.choice(LONG),) if R.random() < 0.2 else shape(R, maxnd=3)
@prop("N01", 6)
def fl_bin(R, i):
    P = Prog()
    P.sz = 1
    f = R.choice(NF)
    d = R.choice(["float64", "float64", "float32", "float16"])
    if f == "heaviside" and d == "float16":
        d = "float64"
    s = fshape(R)
    s2 = s if R.random() < 0.7 else tuple(1 if R.random() < 0.3 else x for x in s[R.randint(0, len(s)):])
    g = fspecial
    g2 = fspecial
    if f in ("maximum", "minimum", "fmax", "fmin"):
        g = g2 = nz(fspecial)
    if f == "divide":
        g2 = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [2, 1], [-4, 1], [1, 2]]))
    if f in ("floor_divide", "remainder", "fmod"):
        g2 = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [2, 1], [-3, 1], [3, 2], [-5, 4]]))
    if f == "power":
        g = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [2, 1], [-3, 1], [1, 2], [-2, 1]]))
        g2 = lambda R, d: list(R.choice([[0, 1], [1, 1], [2, 1], [3, 1], [4, 1], [-1, 1], [-2, 1], [1, 0], [-1, 0], [0, 0], [0, -1]]))
        if d == "float16":
            g = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [2, 1], [1, 2], [-2, 1]]))
    a = randarr(P, R, d, s, g)
    b = randarr(P, R, d, s2, g2)
    p = binp(R, f, 1)
    if f == "isclose":
        p.update(rtol=R.choice([[0, 1], [1, 2], [1, 4]]), atol=R.choice([[0, 1], [1, 2], [3, 1]]), eqnan=R.choice([0, 1]))
    P.add("bin", [a, b], **p)
    if f in ("floor_divide", "remainder"):
        P.add("divmod", [a, b], n=2, sz=1)
    if R.random() < 0.2:
        P.add("array_equal", [a, b])
        P.add("allclose", [a, b], sz=1, f="isclose", rtol=R.choice([[0, 1], [1, 2]]), atol=R.choice([[0, 1], [1, 2], [3, 1]]), eqnan=R.choice([0, 1]))
    return P.done()
@prop("N01", 3)
def fl_un(R, i):
    P = Prog()
    P.sz = 1
    f = R.choice(UN_BY_KIND["f"] + PRED["f"])
    d = R.choice(["float64", "float64", "float32", "float16"])
    g = fspecial
    if f == "sqrt":
        g = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [4, 1], [9, 1], [1, 4], [-2, 1], [25, 1]]))
    if f == "reciprocal":
        g = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [4, 1], [-2, 1], [1, 4]]))
    a = randarr(P, R, d, fshape(R), g)
    P.add("un", [a], f=f, m=R.choice([0, 1, 2]), sz=1)
    return P.done()
@prop("N01", 1)
def fl_misc(R, i):
    P = Prog()
    k = R.randrange(3)
    d = R.choice(["float64", "float64", "float32"])
    s = fshape(R)
    if k == 0:
        P.sz = 1
        a = randarr(P, R, d, s, fspecial)
        P.add("modf", [a], n=2, sz=1)
    elif k == 1:
        a = randarr(P, R, d, s, nz(fspecial))
        P.add("nan_to_num", [a], nan=[R.randint(-3, 3), 1], pinf=[R.randint(50, 60), 1], ninf=[R.randint(-60, -50), 1])
    else:
        d = R.choice(["float64", "float32", "float16", "int64", "int32"])
        a = randarr(P, R, d, s, nz(fspecial) if d in FL else smallint)
        lo = R.randint(-4, 3)
        P.add("clip", [a], hlo=R.choice([0, 1, 1]), lo=[lo, 1], hhi=R.choice([0, 1, 1]), hi=[lo + R.randint(0, 5), 1], m=R.choice([0, 1]))
    return P.done()
Q_ = [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]]
ODDF = ["sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arcsinh", "arctanh", "cbrt", "expm1", "log1p", "deg2rad", "rad2deg"]
EXACT = {"cbrt": [[1, 1], [-1, 1], [8, 1], [-8, 1], [27, 1]], "arcsin": [[2, 1], [-2, 1], [5, 4]], "arccos": [[1, 1], [2, 1], [-3, 1]],
         "arccosh": [[1, 1], [1, 2], [-1, 1], [-7, 1]], "arctanh": [[1, 1], [-1, 1], [2, 1], [-5, 4]], "log": [[1, 1], [-1, 1], [-2, 1], [-1, 4]],
         "log10": [[1, 1], [10, 1], [100, 1], [-1, 1], [-10, 1]], "log1p": [[-1, 1], [-2, 1], [-5, 4]]}
TRANS = ODDF + ["exp", "cos", "cosh", "sinc", "log", "log10", "arccosh", "arccos"]
def transval(f):
    q = [v for v in Q_ + EXACT.get(f, []) if not (f == "arctan" and v in ([1, 0], [-1, 0])) and not (f == "arccos" and v in ([0, 1], [0, -1]))]
    return lambda R, d: list(R.choice(q))
# arrays beyond the size from which the storage of temporaries may be reused
def bigarrs(R, f, d, g, g2):
    P = Prog()
    s = R.choice([(R.randint(1, 20),), (R.randint(1, 4), R.randint(1, 5)), (64,), (65,)])
    return P, mk(P, R, s, d, [g(R, d) for _ in range(int(np.prod(s)))]), mk(P, R, s, d, [g2(R, d) for _ in range(int(np.prod(s)))])
BIGF = ["add", "subtract", "multiply", "floor_divide", "remainder"]
@prop("V03", 1)
@prop("I01", 1)
def int_big(R, i):
    f = R.choice(BIGF)
    d = R.choice(INTS)
    P, a, b = bigarrs(R, f, d, extreme, extreme)
    P.add("bin", [a, b], f=f, m=3, sz=0, h=R.randrange(6) if f == "add" else R.randrange(5))
    return P.done()
@prop("N01", 1)
def fl_big(R, i):
    f = R.choice(BIGF + ["divide"])
    d = R.choice(FL)
    g2 = fspecial
    if f in ("divide", "floor_divide", "remainder"):
        g2 = lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [2, 1], [-4, 1], [1, 2]]))
    P, a, b = bigarrs(R, f, d, fspecial, g2)
    P.sz = 1
    P.add("bin", [a, b], f=f, m=3, sz=1, h=R.randrange(5))
    return P.done()
@prop("N01", 2)
def fl_trans(R, i):
    P = Prog()
    P.sz = 1
    f = TRANS[i % len(TRANS)]
    d = R.choice(["float64", "float64", "float32", "float16"])
    if d == "float16" and f in ("sinc", "deg2rad", "rad2deg"):
        d = "float32"
    P.add("trans", [randarr(P, R, d, fshape(R), transval(f))], f=f, m=R.choice([0, 1]))
    return P.done()
@prop("N01", 1)
def fl_trans2(R, i):
    P = Prog()
    P.sz = 1
    f = R.choice(["hypot", "logaddexp", "logaddexp2", "arctan2"])
    d = R.choice(["float64", "float64", "float32", "float16"])
    s = fshape(R)
    if f == "hypot":
        k = R.choice([0, 1, 2])
        g, h = [(lambda R, d: list(R.choice(Q_ + [[3, 1], [-3, 4], [5, 2], [6, 1]])), lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]]))),
                (lambda R, d: list(R.choice([[3, 1], [-3, 1], [0, 1], [0, 0], [1, 0]])), lambda R, d: list(R.choice([[4, 1], [-4, 1], [-1, 0]]))),
                (lambda R, d: list(R.choice([[5, 2], [-5, 2]])), lambda R, d: list(R.choice([[6, 1], [0, 0], [1, 0], [0, -1]])))][k]
    elif f == "arctan2":
        g, h = [(fspecial, lambda R, d: list(R.choice([[1, 0], [0, 0]]))),
                (lambda R, d: list(R.choice([[0, 1], [0, -1], [0, 0]])), lambda R, d: list(R.choice([[1, 0], [0, 0], [1, 1], [5, 4], [100, 1]])))][R.choice([0, 1])]
        if g is fspecial:
            g = lambda R, d: list(R.choice([[0, 1], [0, -1], [1, 1], [-7, 4], [0, 0]]))
    else:
        g, h = fspecial, lambda R, d: list(R.choice([[0, 0], [1, 0], [-1, 0], [-1, 0]]))
        if R.random() < 0.5:
            g, h = h, g
    a, b = randarr(P, R, d, s, g), randarr(P, R, d, s if R.random() < 0.8 else (1,), h)
    P.add("trans2", [a, b], f=f)
    return P.done()
def ulpval(R, d):
    return list(R.choice([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]] if R.random() < 0.3 else
                         [[1, 1], [-1, 1], [2, 1], [-2, 1], [1, 2], [-1, 4], [3, 1], [-3, 2], [5, 4], [-7, 8], [100, 1], [-64, 1], [31, 32]]))
@prop("N01", 2)
def fl_ulp(R, i):
    P = Prog()
    P.sz = 1
    k = i % 4
    s = fshape(R)
    if k == 0:
        d = R.choice(["float64", "float32", "float16"])
        a, b = randarr(P, R, d, s, ulpval), randarr(P, R, d, s if R.random() < 0.7 else (), ulpval)
        P.add("nextafter", [a, b], d=d)
        return P.done()
    d = R.choice(["float64", "float32"])
    a = randarr(P, R, d, s, ulpval)
    if k == 1:
        P.add("spacing", [a], d=d)
    elif k == 2:
        lo, hi = (-137, 118) if d == "float32" else (-1060, 1010)
        P.add("frexp", [a], n=2, k=R.choice([0, 0, lo, hi, R.randint(lo, hi)]))
    else:
        hi = 127 if d == "float32" else 1023
        k1 = R.choice([R.randint(-8, 8), R.randint(-8, 8), R.randint(hi - 40, hi - 8), R.randint(hi + 8, 3 * hi), R.randint(-hi - 10, -hi + 20), R.randint(-4 * hi, -hi - 80), 10**6, -10**6])
        kd = R.choice(["int32", "int64"])
        k2 = -k1 + R.randint(-5, 5)
        wide = 0
        if abs(k1) == 10**6:       # stands for exponents at the edge of the type and beyond 32 bits
            k2 = R.randint(-5, 5)
            wide = R.choice([0, 1, 2] if kd == "int64" else [0, 1])
        P.add("ldexp", [a], wide=wide, k1=k1, k2=k2, m=R.choice([0, 1]), kd=kd)
    return P.done()
@prop("N01", 1)
def fl_scalar(R, i):
    P = Prog()
    P.sz = 1
    f = R.choice(["add", "subtract", "multiply"] + CMPF)
    d = R.choice(["float64", "float64", "float32", "float16"])
    a = randarr(P, R, d, fshape(R), fspecial)
    v = fspecial(R, d)
    P.add("binsc", [a], f=f, v=v, vd="float64", left=R.choice([0, 0, 1]), sz=1)
    return P.done()
@prop("N01", 1)
def cx_bin(R, i):
    P = Prog()
    d = R.choice(CX)
    s = fshape(R)
    if R.random() < 0.7:
        f = R.choice(["add", "subtract", "multiply", "equal", "not_equal", "logical_and", "logical_or"])
        a = randarr(P, R, d, s)
        b = randarr(P, R, d, s)
        P.add("bin", [a, b], **binp(R, f))
    else:
        a = randarr(P, R, d, s)
        P.add("un", [a], f=R.choice(UN_BY_KIND["c"] + PRED["c"] + ["real", "imag"]), m=0, sz=0)
    return P.done()
