"""Reductions (R01), NaN-aware reductions (R02), prefix aggregates and differences (R03)."""
import numpy as np
from gen import *
from gen_elem import kind

def axes(R, P, h, multi=0.2, bad=0.03):
    """p fields for the axis argument."""
    n = P.sh[h - 1].ndim
    if R.random() < 0.3 or (n == 0 and R.random() > bad):
        return dict(none=1, ax=[], noarg=R.choice([0, 1]))
    if R.random() < bad or n == 0:
        return dict(none=0, ax=[R.choice([n, n + 1, -n - 1])])
    if n >= 2 and R.random() < multi:
        k = R.randint(2, n)
        ax = R.sample(range(n), k)
        return dict(none=0, ax=[x - n if R.random() < 0.3 else x for x in ax], tup=1)
    x = R.randrange(n)
    return dict(none=0, ax=[x - n if R.random() < 0.3 else x])
LANE = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]
def rshape(R, lim=None):
    r = R.random()
    if r < 0.25:
        return (R.choice(LANE),)
    if r < 0.4:
        a, b = R.choice(LANE), R.choice([1, 2, 3])
        return (a, b) if R.random() < 0.5 else (b, a)
    return shape(R)
def rp(R, P, h, f, multi=0.2, meth=True, keepok=True, bad=0.03):
    p = dict(f=f, m=0, keep=0, k=0)
    p.update(axes(R, P, h, multi, bad))
    if meth and len(p["ax"]) <= 1 and not p.get("tup") and R.random() < 0.5:
        p["m"] = 1
        if keepok and R.random() < 0.4:
            p["keep"] = 1
    return p
METH = {"sum", "prod", "max", "min", "mean", "var", "std", "argmax", "argmin", "all", "any", "moment"}
KEEP = {"sum", "prod", "max", "min", "mean", "var", "std", "all", "any", "moment"}

@prop("R01", 3)
def red_int(R, i):
    P = Prog()
    f = R.choice(["sum", "prod", "max", "min", "argmax", "argmin", "all", "any", "ptp", "amax", "amin", "count_nonzero"])
    d = R.choice(INTS)
    s = rshape(R)
    g = extreme if R.random() < 0.6 else (lambda R, d: smallint(R, d, -2, 2))
    pre = len(P.ev)
    h = randarr(P, R, d, s, g)
    p = rp(R, P, h, f, multi=0 if f in ("argmax", "argmin", "count_nonzero") else 0.2, meth=f in METH, keepok=f in KEEP)
    if f == "count_nonzero":
        p.update(none=1, ax=[])
    if p["none"] and g is extreme and (f == "ptp" or d in ("int64", "uint64")) and f in ("sum", "prod", "max", "min", "ptp", "amax", "amin"):
        # a total is returned as a Python float: exact only below 2^53
        P = Prog()
        h = randarr(P, R, d, s, lambda R, d: smallint(R, d, -2, 2))
    if p["none"] and f == "prod" and d in ("int64", "uint64"):
        P = Prog()
        h = randarr(P, R, d, s, lambda R, d: [R.choice([0, 1, 1, 1, 1, 2]) if R.random() < 0.3 else 1, 1])
    P.add("red", [h], **p)
    return P.done()
@prop("R01", 3)
def red_float(R, i):
    P = Prog()
    f = R.choice(["sum", "prod", "max", "min", "argmax", "argmin", "all", "any", "ptp", "mean", "mean", "count_nonzero", "amax", "amin"])
    d = R.choice(["float64", "float64", "float32", "float16"])
    s = rshape(R)
    if f == "mean" and d == "float16":
        d = "float32"
    if f == "mean" and prod(s) > 40:
        d = "float64"
    if f == "prod":
        g = lambda R, d: [R.choice([1, 1, 1, 2, -1, 1, -1, 1]), R.choice([1, 1, 1, 1, 2]) if d == "float64" else 1] if R.random() > 0.02 else [0, 1]
        g0 = g
        g = lambda R, d: (lambda v: [1, 1] if v[0] == 2 and v[1] == 2 else [0, 1] if v[0] == 0 else v)(g0(R, d))
        if prod(s) > 12:
            g = lambda R, d: [R.choice([1, 1, -1]), 1] if R.random() > 0.04 else [R.choice([2, 3, 0]), 1]
    elif f == "mean":
        g = smallint
    elif d == "float16":
        g = lambda R, d: smallint(R, d, -3, 4)
    else:
        g = small
    if R.random() < 0.25 and f in ("max", "min", "argmax", "argmin", "all", "any", "ptp", "amax", "amin", "sum", "count_nonzero"):
        inf = f != "ptp"
        g = lambda R, d: list(R.choice([[0, 0]] + [[1, 0], [-1, 0]] * inf + [[k, 1] for k in range(-3, 4)]))
    h = randarr(P, R, d, s, g)
    p = rp(R, P, h, f, multi=0 if f in ("argmax", "argmin", "count_nonzero") else 0.2, meth=f in METH, keepok=f in KEEP)
    if f == "count_nonzero":
        p.update(none=1, ax=[])
    P.add("red", [h], **p)
    return P.done()
@prop("R01", 1)
def red_var(R, i):
    P = Prog()
    f = R.choice(["var", "std", "moment", "average", "mean"])
    d = R.choice(["float64", "float64", "float32", "int64", "int32", "uint8", "int16"])
    if f in ("moment", "average"):
        d = R.choice(["float64", "int64"])
    s = shape(R, maxnd=3, mind=1, empty=0) if d == "float32" or f == "moment" else rshape(R)
    while d == "float32" and prod(s) > 12:
        s = shape(R, maxnd=2, mind=1, empty=0)
    while f == "moment" and (prod(s) > 9 or not s):
        s = shape(R, maxnd=2, mind=1, empty=0)
    h = randarr(P, R, d, s, lambda R, d: smallint(R, d, -3, 5))
    p = rp(R, P, h, f, multi=0.2 if f in ("mean", "var", "std") else 0, meth=f in METH, keepok=f in KEEP)
    if f == "moment":
        p["m"] = 1
        p["k"] = R.choice([1, 2, 3])
    P.add("red", [h], **p)
    return P.done()
@prop("R01", 1)
def red_bool(R, i):
    P = Prog()
    f = R.choice(["all", "any", "max", "min", "count_nonzero", "argmax", "argmin"])
    s = rshape(R)
    q = R.choice([0.5, 0.05, 0.95])
    h = randarr(P, R, "bool", s, lambda R, d: [int(R.random() < q), 1])
    p = rp(R, P, h, f, multi=0 if f in ("argmax", "argmin", "count_nonzero") else 0.2, meth=f in METH, keepok=f in KEEP)
    if f == "count_nonzero":
        p.update(none=1, ax=[])
    P.add("red", [h], **p)
    return P.done()
@prop("R01", 0.5)
def red_wavg(R, i):
    P = Prog()
    s = shape(R, maxnd=2, mind=1, empty=0)
    h = randarr(P, R, "float64", s, smallint)
    w = randarr(P, R, "float64", s, lambda R, d: [R.randint(1, 4), 1])
    p = dict(keep=0)
    p.update(axes(R, P, h, 0))
    P.add("waverage", [h, w], **p)
    return P.done()
@prop("R01", 0.5)
def red_cx(R, i):
    P = Prog()
    f = R.choice(["sum", "prod", "all", "any"])
    s = shape(R, maxnd=3, mind=1)
    h = randarr(P, R, R.choice(CX), s, (lambda R, d: [R.choice([1, 0, -1]), 1, R.choice([1, 0, -1]), 1]))
    p = rp(R, P, h, f, multi=0, meth=False)
    if p["none"]:
        p.update(none=0, ax=[0])
    P.add("red", [h], **p)
    return P.done()

def withnan(q, g=None):
    def f(R, d):
        return [0, 0] if R.random() < q else (g or (lambda R, d: smallint(R, d, -3, 5)))(R, d)
    return f
@prop("R02", 4)
def nanred(R, i):
    P = Prog()
    f = R.choice(["nansum", "nanprod", "nanmax", "nanmin", "nanmean", "nanvar", "nanstd", "nanargmax", "nanargmin", "nanmedian"])
    d = R.choice(["float64", "float64", "float32"])
    s = rshape(R)
    if d == "float32" and prod(s) > 12:
        s = shape(R, maxnd=2)
    g = withnan(R.choice([0, 0.1, 0.3, 0.5, 0.8, 1.0]), (lambda R, d: [R.choice([1, -1, 2]), 1]) if f == "nanprod" and prod(s) < 20
                else (lambda R, d: [R.choice([1, -1]), 1]) if f == "nanprod" else None)
    h = randarr(P, R, d, s, g)
    p = rp(R, P, h, f, multi=0 if f.startswith("nanarg") else 0.2, meth=False)
    P.add("red", [h], **p)
    return P.done()
@exhaustive("R02")
def nan_masks(R, tier):
    """Every placement of NaNs in small arrays."""
    for s in [(4,), (2, 3), (3, 2)] if tier == "quick" else [(4,), (5,), (2, 3), (3, 2), (2, 2, 2)]:
        n = prod(s)
        for m in range(1 << n):
            P = Prog()
            v = [[0, 0] if m >> k & 1 else [R.randint(-3, 5), 1] for k in range(n)]
            h = mk(P, R, s, "float64", v)
            for f in R.sample(["nansum", "nanprod", "nanmax", "nanmin", "nanmean", "nanvar", "nanstd", "nanargmax", "nanargmin", "nanmedian"], 4):
                p = rp(R, P, h, f, multi=0, meth=False)
                P.add("red", [h], **p)
            yield P.done()
@prop("R02", 1)
def nancum(R, i):
    P = Prog()
    d = R.choice(["float64", "float32"])
    f = R.choice(["nancumsum", "nancumprod"])
    h = randarr(P, R, d, shape(R), withnan(R.choice([0.2, 0.5, 0.9]), lambda R, d: smallint(R, d, -2, 2)))
    n = P.sh[h - 1].ndim
    none = int(n == 0 or R.random() < 0.3)
    P.add("cum", [h], f=f, m=0, none=none, axis=0 if none else R.randrange(-n, n), init=0)
    return P.done()

@prop("R03", 3)
def cum(R, i):
    P = Prog()
    f = R.choice(["cumsum", "cumprod", "cumsum", "cumprod", "cumulative_sum", "cumulative_prod"])
    d = R.choice(INTS + FL + ["float64", "int64"])
    s = rshape(R)
    g = extreme if d in INTS and R.random() < 0.6 else (lambda R, d: smallint(R, d, -1, 2) if "prod" in f else smallint(R, d))
    if "prod" in f and d in FL:
        g = lambda R, d: [R.choice([1, -1, 1, -1, 2]) if R.random() < 0.3 else 1, 1]
        if (d == "float16" and prod(s) > 12) or prod(s) > 40:
            g = lambda R, d: [R.choice([1, -1]), 1]
    if d == "float16":
        g2 = g
        g = lambda R, d: smallint(R, d, -1, 2) if "sum" in f else g2(R, d)
    h = randarr(P, R, d, s, g)
    n = P.sh[h - 1].ndim
    none = int(not f.startswith("cumulative") and (n == 0 or R.random() < 0.25))
    ax = 0 if none else R.randrange(-n, n) if n and R.random() > 0.03 else R.choice([n, -n - 1])
    P.add("cum", [h], f=f, m=R.choice([0, 1]) if f in ("cumsum", "cumprod") and ax >= 0 else 0, none=none, axis=ax, init=R.choice([0, 1]) if f.startswith("cumulative") else 0)
    return P.done()
@prop("R03", 2)
def difff(R, i):
    P = Prog()
    d = R.choice(INTS + FL + ["float64", "int64"])
    s = rshape(R)
    g = extreme if d in INTS and R.random() < 0.6 else small
    h = randarr(P, R, d, s, g)
    n = P.sh[h - 1].ndim
    if n == 0:
        return P.done()
    P.add("diff", [h], ord=R.choice([0, 1, 1, 1, 2, 3, 4]), axis=R.randrange(-n, n))
    return P.done()
@prop("R03", 1)
def ediff(R, i):
    P = Prog()
    d = R.choice(["float64", "float32", "int64", "int32", "int16"])
    s = shape(R, maxnd=2, mind=1, empty=0.02)
    h = randarr(P, R, d, s, smallint)
    P.add("ediff1d", [h], b=vals(R, R.choice([0, 0, 1, 2]), d, smallint), e=vals(R, R.choice([0, 0, 1, 2]), d, smallint))
    return P.done()
@prop("R03", 0.7)
def grad(R, i):
    P = Prog()
    k = R.randrange(3)
    if k == 0:
        h = randarr(P, R, R.choice(["float64", "int64"]), (R.choice([2, 3, 4, 5, 8, 9, 17]),), smallint)
        P.add("gradient", [h], h=R.choice([[1, 1], [2, 1], [1, 2]]))
    elif k == 1:
        h = randarr(P, R, "float64", shape(R, maxnd=3, mind=1, empty=0), smallint)
        n = P.sh[h - 1].ndim
        P.add("trapezoid", [h], dx=R.choice([[1, 1], [2, 1], [1, 2]]), axis=R.randrange(-n, n))
    else:
        m = R.choice([2, 3, 5, 8])
        h = randarr(P, R, "float64", (m,), smallint)
        x = randarr(P, R, "float64", (m,), smallint)
        P.add("trapezoid_x", [h, x])
    return P.done()
