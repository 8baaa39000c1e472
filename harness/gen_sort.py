"""Sorting, partitioning (S01); set functions and searching (S02)."""
from gen import *
from gen_reduce import rshape, LANE

def sval(R):
    """A value generator for sorting: ties, NaN, extremes."""
    r = R.random()
    def f(R, d):
        if d in FL:
            if r < 0.5:
                return list(R.choice([[0, 0], [1, 0], [-1, 0], [1, 2], [0, 1], [0, 1], [2, 1], [-3, 1], [1, 1]]))
            return small(R, d)
        if d in CX:
            if r < 0.3 and R.random() < 0.2:
                return list(R.choice([[0, 0, 1, 1], [1, 1, 0, 0], [0, 0, 0, 0]]))
            return [R.randint(-2, 2), 1, R.randint(-2, 2), 1]
        if d == "bool":
            return small(R, d)
        return extreme(R, d) if r < 0.5 else smallint(R, d, -3, 4) if r < 0.8 else smallint(R, d, -90, 90)
    return f
def sdt(R):
    return R.choice(FL + INTS + ["bool", "float64", "float64", "float64", "int64", "int64", "uint64"] + CX)
def axp(R, n, bad=0.03):
    if R.random() < bad:
        return dict(none=0, axis=R.choice([n, -n - 1, n + 2]))
    if n == 0 or R.random() < 0.15:
        return dict(none=1, axis=0)
    return dict(none=0, axis=R.randrange(-n, n))
def nnan(R, d):
    return sval(R)

@prop("S01", 3)
def sort(R, i):
    P = Prog()
    d = sdt(R)
    s = rshape(R) if R.random() < 0.7 else shape(R)
    h = randarr(P, R, d, s, sval(R))
    op = R.choice(["sort", "sort", "argsort"])
    p = axp(R, len(s))
    p["m"] = 0
    if op == "argsort" and R.random() < 0.4:
        p["m"] = 1
    elif R.random() < 0.2 and len(s):
        p.update(m=2, none=0, axis=-1)
    if p["m"] == 1 and p["none"] == 0 and p["axis"] < 0 and R.random() < 0.5:
        p["axis"] += len(s)
    P.add(op, [h], **p)
    return P.done()
@prop("S01", 1.5)
def insort(R, i):
    """in-place sort through a view, the base observed"""
    P = Prog()
    d = sdt(R)
    s = rshape(R) if R.random() < 0.6 else shape(R, mind=1)
    h = randarr(P, R, d, s, sval(R), layout=R.choice([x for x in LAYOUTS if x != "bc"]))
    n = len(s)
    P.add("msort", [h], n=0, axis=R.randrange(-n, n) if n and R.random() > 0.03 else n + 1)
    return P.done()
@prop("S01", 2)
def part(R, i):
    P = Prog()
    d = sdt(R)
    s = rshape(R) if R.random() < 0.7 else shape(R, mind=1)
    while len(s) == 0 or (0 in s):
        s = rshape(R)
    op = R.choice(["partition", "argpartition", "mpartition"])
    h = randarr(P, R, d, s, sval(R), layout=R.choice([x for x in LAYOUTS if x != "bc" or op != "mpartition"]))
    if op == "mpartition":
        p = dict(none=0, axis=-1, m=1)
    else:
        p = axp(R, len(s), 0.02)
        p["m"] = 0
        if R.random() < 0.2:
            p.update(m=R.choice([1, 2]) if op == "argpartition" else 2, none=0, axis=-1)
    ln = prod(s) if p["none"] else s[p["axis"]] if -len(s) <= p["axis"] < len(s) else 1
    P.add(op, [h], n=0 if op == "mpartition" else 1, kth=R.randrange(ln) if R.random() > 0.03 else ln + R.choice([0, 1]), **p)
    return P.done()
@prop("S01", 1.3)
def lex(R, i):
    P = Prog()
    m = R.choice([1, 2, 3, 4, 5, 8, 9, 17, 21, 33, 48, 64])
    k = R.choice([1, 2, 2, 3])
    hs = [randarr(P, R, R.choice(["float64", "int64", "int32", "uint8"]), (m if R.random() > 0.02 else m + 1,), lambda R, d: smallint(R, d, 0, 2)) for _ in range(k)]
    P.add("lexsort", hs)
    return P.done()
@exhaustive("S01")
def perms(R, tier):
    """Every arrangement of short sequences over few values, every kth."""
    n = 4 if tier == "quick" else 5
    for d, al in (("float64", [[0, 0], [-1, 0], [1, 1]]), ("int64", [enc_int(LO["int64"]), enc_int(LO["int64"] + 1), [0, 1]])):
        for w in itertools.product(al, repeat=n):
            P = Prog()
            h = mk(P, R, (n,), d, [list(x) for x in w])
            P.add("sort", [h], none=0, axis=-1, m=0)
            P.add("argsort", [h], none=0, axis=0, m=R.choice([0, 1]))
            k = R.randrange(n)
            P.add("partition", [h], none=0, axis=0, m=0, kth=k)
            P.add("argpartition", [h], none=0, axis=0, m=R.choice([0, 1]), kth=k)
            yield P.done()

@prop("S02", 2)
def uniq(R, i):
    P = Prog()
    f = R.choice(["unique", "unique_values", "unique_counts", "unique_inverse", "unique_all"])
    d = R.choice(FL + INTS + ["bool", "float64", "int64"] + CX)
    g = sval(R)
    s = rshape(R)
    if d in FL + CX:
        q = 0 if f == "unique" else 1
        g0 = g
        def g(R, d):     # one NaN is one element; several NaNs are exercised by `uniqnan`
            v = g0(R, d)
            return smallint(R, d, -2, 3) if [0, 0] in (v[:2], v[2:]) else v
    h = randarr(P, R, d, s, g)
    P.add("unique", [h], n={"unique": 1, "unique_values": 1, "unique_counts": 2, "unique_inverse": 2, "unique_all": 4}[f], f=f)
    return P.done()
@prop("S02", 0.5)
def uniqnan(R, i):
    P = Prog()
    h = randarr(P, R, R.choice(["float64", "float32"]), rshape(R), lambda R, d: [0, 0] if R.random() < 0.3 else smallint(R, d, -2, 3))
    P.add("unique", [h], f="unique")
    return P.done()
@prop("S02", 2)
def set2(R, i):
    P = Prog()
    f = R.choice(["intersect1d", "union1d", "setdiff1d", "setxor1d"])
    d = R.choice(["float64", "float32", "int64", "int32", "uint8", "int8", "uint64", "uint32", "int16", "uint16"])
    e = d if R.random() < 0.6 else R.choice(INTS + ["float64", "float32"])
    big = np.result_type(d, e).kind in "iu" and R.random() < 0.5
    g = lambda R, d: extreme(R, d) if big and R.random() < 0.2 else smallint(R, d, -3, 5)
    a = randarr(P, R, d, shape(R, maxnd=2), g)
    b = randarr(P, R, e, shape(R, maxnd=2), g)
    P.add("set2", [a, b], f=f)
    return P.done()
@prop("S02", 1.5)
def isin(R, i):
    P = Prog()
    d = R.choice(["float64", "float32", "int64", "int32", "uint8", "int8", "uint64"])
    e = d if R.random() < 0.6 else R.choice(INTS + ["float64"])
    x = R.random() < 0.5
    def g(R, d):
        if d in FL and x and R.random() < 0.2:
            return [0, 0]
        if d == e and x and R.random() < 0.2:
            return extreme(R, d)
        return smallint(R, d, -3, 5)
    a = randarr(P, R, d, shape(R), g)
    b = randarr(P, R, e, shape(R, maxnd=2), g)
    P.add("isin", [a, b], f=R.choice(["isin", "isin", "in1d"]), inv=R.choice([0, 0, 1]))
    return P.done()
@prop("S02", 2)
def search(R, i):
    P = Prog()
    d = R.choice(["float64", "float64", "float32", "int64", "int64", "int32", "uint8", "uint64"])
    m = R.choice([0, 1, 2, 3, 5, 8, 9, 17, 33])
    big = d in ("int64", "uint64") and R.random() < 0.3
    def g(R, d):
        if big:
            return enc_int(HI[d] - R.randint(0, 6))
        if d in FL and R.random() < 0.08:
            return list(R.choice([[0, 0], [1, 0], [-1, 0]]))
        return smallint(R, d, -6, 9)
    v = vals(R, m, d, g)
    v.sort(key=lambda t: (t == [0, 0], dec(t, d) if t != [0, 0] else 0))
    op = R.choice(["searchsorted", "digitize"])
    if op == "digitize":
        if R.random() < 0.4:
            v = v[::-1]
        if [0, 0] in v:
            v = [t for t in v if t != [0, 0]]
        v = v or [[1, 1]]
    a = mk(P, R, (len(v),), d, v)
    x = randarr(P, R, d, shape(R, maxnd=2), g)
    P.add(op, [a, x] if op == "searchsorted" else [x, a], right=R.choice([0, 1]))
    return P.done()
@prop("S02", 1.5)
def nonz(R, i):
    P = Prog()
    d = R.choice(ALL + ["bool", "bool"])
    q = R.choice([0.1, 0.5, 0.9])
    s = rshape(R) if R.random() < 0.5 else shape(R, mind=1)
    def g(R, d):
        if R.random() < q:
            return [0, 1, 0, 1] if d in CX else [0, 1]
        if d in FL and R.random() < 0.1:
            return [0, 0]
        if d in CX:
            return list(R.choice([[0, 1, 1, 1], [1, 1, 0, 1]]))
        return extreme(R, d) if d in INTS else [1, 2] if d in FL else [1, 1]
    h = randarr(P, R, d, s if s else (1,), g)
    f = R.choice(["nonzero", "argwhere", "flatnonzero"])
    P.add("nonzero", [h], f=f, m=R.choice([0, 1]), n=len(P.sh[h - 1].shape) if f == "nonzero" else 1)
    return P.done()
@prop("S02", 0.7)
def binc(R, i):
    P = Prog()
    d = R.choice(["int64", "int32", "uint8", "int16"])
    h = randarr(P, R, d, (R.choice([0, 1, 2, 3, 5, 8, 9, 17, 33]),) if R.random() > 0.03 else (2, 2), lambda R, d: [R.randint(0 if R.random() > 0.005 or d in UI else -1, 6), 1])
    P.add("bincount", [h], minlength=R.choice([0, 0, 3, 10]))
    return P.done()
