"""Order statistics, histograms, covariance, convolution, interpolation, polynomials (Q01)."""
from gen import *
from gen_linalg import inverse, den, put, frank
from fractions import Fraction as Fr

QD = ["float64"] * 4 + ["float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool"]
def nanny(p):
    def f(R, d):
        return [0, 0] if d in FL and R.random() < p else small(R, d)
    return f
def qs(R):
    k = R.choice([2, 4, 5, 8, 10, 20, 100])
    return [R.choice([0, k, R.randint(0, k), R.randint(0, k)]), k]
def qn(q):
    g = math.gcd(q[0], q[1]) or 1
    return [q[0] // g, q[1] // g]
import math
@prop("Q01", 3)
def quantiles(R, i):
    P = Prog()
    d = R.choice(QD)
    fn = R.choice(["percentile", "quantile", "nanpercentile", "nanquantile"])
    s = shape(R, maxnd=4, mind=1, empty=0.05)
    h = randarr(P, R, d, s, nanny(R.choice([0, 0, 0.05, 0.3])))
    sc = R.random() < 0.4
    q = [qn(qs(R)) for _ in range(1 if sc else R.choice([2, 2, 3]))]
    if R.random() < 0.03:
        q[-1] = R.choice([[-1, 4], [5, 4]])
    none = R.random() < 0.35
    ax = R.randrange(len(s)) if R.random() < 0.97 else len(s)
    P.add("stat", [h], f="quantile", fn=fn, nan=int(fn.startswith("nan")), q=q, sc=int(sc), none=int(none), axis=ax)
    return P.done()

def fr(v):
    return Fr(v[0], v[1])
def edgesafe(vals, b, r):
    """the values that coincide with an interior edge meet an edge that is computed exactly"""
    fin = [fr(v) for v in vals if v[1]]
    if b == 0 or (not r and (not fin or len(fin) < len(vals))):
        return True
    lo, hi = (fr(r[0]), fr(r[1])) if r else (min(fin), max(fin))
    if lo == hi:
        lo, hi = lo - Fr(1, 2), hi + Fr(1, 2)
    w = (hi - lo) / b
    if w.denominator & (w.denominator - 1) == 0:
        return True
    return not any(lo + k * w in fin for k in range(1, b))
def enough(R, f):
    for _ in range(50):
        x = f()
        if x is not None:
            return x
def hrange(R, d):
    if R.random() < 0.5:
        return []
    if R.random() < 0.08:
        return [[3, 1], [1, 1]]
    lo = R.choice([[0, 1], [-2, 1], [1, 2], [1, 1], [-5, 4]])
    w = R.choice([Fr(0), Fr(1), Fr(2), Fr(5, 2), Fr(4), Fr(6), Fr(10)])
    x = fr(lo) + w
    return [lo, [x.numerator, x.denominator]]
def hvals(R, n, d):
    k = R.choice([0, 0, 0, 1])
    f = (lambda R, d: small(R, d, 2, 2)) if k else nanny(R.choice([0, 0, 0, 0.1]))
    return [f(R, d) for _ in range(n)]
HB = [1, 2, 3, 4, 5, 7, 8, 10, 16]
@prop("Q01", 3)
def histograms(R, i):
    P = Prog()
    d = R.choice(QD)
    s = shape(R, maxnd=3, mind=1, empty=0.05)
    k = R.randrange(4)
    nb = lambda: 0 if R.random() < 0.03 else R.choice(HB)
    if k <= 1:
        def t():
            v, b, r = hvals(R, prod(s), d), nb(), hrange(R, d)
            dflt = R.random() < 0.1
            if dflt:
                b = 10
            return (v, b, r, dflt) if edgesafe(v, b, r) else None
        v, b, r, dflt = enough(R, t) or ([[1, 1]] * prod(s), 4, [], 0)
        P.add("stat", [mk(P, R, s, d, v)], f="histogram", b=b, r=r, edges=int(R.random() < 0.25), dflt=int(dflt))
        return P.done()
    if k == 2:
        n = R.choice([0, 1, 2, 3, 5, 8, 12])
        e = R.choice(QD)
        def t():
            v, w, b, r = hvals(R, n, d), hvals(R, n, e), [nb(), nb()], [hrange(R, d), hrange(R, d)]
            if not all(r):
                r = [[], []]
            one = R.random() < 0.4
            if one:
                b[1] = b[0]
            return (v, w, b, r, one) if edgesafe(v, b[0], r[0]) and edgesafe(w, b[1], r[1]) else None
        v, w, b, r, one = enough(R, t) or ([[1, 1]] * n, [[1, 1]] * n, [2, 2], [[], []], 0)
        if R.random() < 0.03:
            w = w + [[1, 1]]
        P.add("stat", [mk(P, R, (n,), d, v), mk(P, R, (len(w),), e, w)], f="histogram2d", bs=b, rs=r, one=int(one), dens=R.randrange(2))
        return P.done()
    D = R.choice([1, 2, 2, 3])
    n = R.choice([1, 2, 3, 5, 8])
    def t():
        c = [hvals(R, n, d) for _ in range(D)]
        b = [R.choice([1, 2, 3, 4, 5]) for _ in range(D)]
        r = [hrange(R, d) for _ in range(D)]
        if not all(r):
            r = [[]] * D
        one = R.random() < 0.4
        if one:
            b = [b[0]] * D
        return (c, b, r, one) if all(edgesafe(x, y, z) for x, y, z in zip(c, b, r)) else None
    c, b, r, one = enough(R, t) or ([[[1, 1]] * n] * D, [2] * D, [[]] * D, 0)
    sh = (n,) if D == 1 and R.random() < 0.3 else (n, D)
    h = mk(P, R, sh, d, [c[j][k] for k in range(n) for j in range(D)])
    if D > 1 and R.random() < 0.04:
        b, one = b[:-1] if D > 2 else b + [2], 0
    elif D > 1 and any(r) and R.random() < 0.04:
        r = r[:-1]
    P.add("stat", [h], f="histogramdd", bs=b, rs=r, one=int(one), dens=R.randrange(2))
    return P.done()

@prop("Q01", 0.7)
def counting(R, i):
    P = Prog()
    d = R.choice(INTS + INTS + ["bool", "float64", "float32"])
    s = (R.choice([0, 1, 2, 5, 9, 17]),) if R.random() < 0.95 else (2, 3)
    f = (lambda R, d: smallint(R, d, -1 if R.random() < 0.02 else 0, 9)) if d != "bool" else smallint
    h = randarr(P, R, d, s, f)
    P.add("stat", [h], f="bincount", ml=R.choice([0, 0, 1, 4, 12]))
    return P.done()

@prop("Q01", 1.2)
def moments(R, i):
    P = Prog()
    d = R.choice(QD[:-1])
    if R.random() < 0.5:
        n = R.choice([2, 3, 4, 5, 7])
        s = R.choice([(n,), (1, n), (2, n), (3, n), (4, n)]) if R.random() < 0.96 else R.choice([(), (2, 2, 2)])
        h = randarr(P, R, d, s, small)
        P.add("stat", [h], f="cov", ddof=R.choice([0, 1, 1]))
        return P.done()
    n = R.choice([2, 3, 4])
    k = R.choice([1, 2, 3, 4])
    def t():
        r = [[R.randint(0 if d in UI else -3, 3) for _ in range(n)] for _ in range(k)]
        return r if all(len(set(x)) > 1 for x in r) else None
    r = enough(R, t) or [[0] * (n - 1) + [1]] * k
    if k == 1 and R.random() < 0.5:
        h = put(P, R, r, d, (n,))
    else:
        h = put(P, R, r, d)
    P.add("stat", [h], f="corrcoef")
    return P.done()

@prop("Q01", 1.5)
def convolving(R, i):
    P = Prog()
    ln = lambda: 0 if R.random() < 0.03 else R.choice([1, 1, 2, 3, 4, 5, 6, 7, 9, 16])
    x = randarr(P, R, R.choice(QD), (ln(),), small)
    y = randarr(P, R, R.choice(QD), (ln(),) if R.random() < 0.97 else (2, 2), small)
    mode = R.choice(["full", "same", "valid"]) if R.random() < 0.97 else "wrap"
    if R.random() < 0.15:
        mode = "full"
        P = Prog()
        x, y = (randarr(P, R, R.choice(QD), (R.choice([1, 2, 3, 5, 8, 16]),), small) for _ in range(2))
        P.add("stat", [x, y], f=R.choice(["convolve", "correlate"]), mode=mode, big=1, bmode=R.choice(["full", "same", "valid"]),
              ext=R.choice([[2003, 301], [1749, 301], [1748, 301], [301, 2003], [300, 1800], [1000, 600], [501, 1001], [2500, 250]]))
        return P.done()
    P.add("stat", [x, y], f=R.choice(["convolve", "correlate"]), mode=mode)
    return P.done()

@prop("Q01", 1.5)
def interpolation(R, i):
    P = Prog()
    n = R.choice([1, 2, 3, 4, 5, 8]) if R.random() < 0.97 else 0
    d = R.choice(QD[:-1])
    lo = 0 if d in UI else -6
    xs = sorted(R.sample(range(lo, 12), n))
    xp = mk(P, R, (n,), d, [[x, 1] for x in xs])
    fp = randarr(P, R, R.choice(QD), (n if R.random() < 0.97 else n + 1,), small)
    pts = [[x, 1] for x in xs] or [[0, 1]]
    def f(R, d):
        if R.random() < 0.4:
            v = R.choice(pts)
            return [abs(v[0]), 1] if d in UI else ([1, 1] if d == "bool" else list(v))
        if d in FL and R.random() < 0.05:
            return [0, 0]
        return small(R, d, -8, 13)
    x = randarr(P, R, R.choice(QD), shape(R, maxnd=3, empty=0.03), f)
    P.add("stat", [x, xp, fp], f="interp", l=R.choice([[], [], [-50, 1], [61, 2]]), r=R.choice([[], [], [77, 1], [-31, 4]]))
    return P.done()

@prop("Q01", 1.5)
def differences(R, i):
    P = Prog()
    d = R.choice(QD[:-1])
    s = shape(R, maxnd=3, mind=1, empty=0)
    if R.random() < 0.5:
        s = tuple(max(2, x) for x in s)
        h = randarr(P, R, d, s, smallint)
        if R.random() < 0.4:
            ax = R.randrange(-len(s), len(s)) if R.random() < 0.6 else None
            n = s[0 if ax is None else ax] + (R.random() < 0.03)
            xs = sorted(R.sample(range(-8, 12), n))
            if R.random() < 0.2:
                xs = xs[::-1]
            e = R.choice(["float64", "int64", "float32", "int16"])
            x = mk(P, R, (n,), e, [[v, 1] for v in xs])
            P.add("stat", [h, x], f="gradient", h=[1, 1], axis=[] if ax is None else [ax])
        else:
            ax = R.randrange(-len(s), len(s)) if R.random() < 0.97 else len(s)
            P.add("stat", [h], f="gradient", h=R.choice([[1, 1], [1, 1], [2, 1], [1, 2], [-1, 1]]), axis=[ax] if R.random() < 0.5 else [])
        return P.done()
    h = randarr(P, R, d, s, smallint)
    ax = R.randrange(-len(s), len(s))
    n = s[ax] + (1 if R.random() < 0.03 and s[ax] > 1 else 0)
    x = randarr(P, R, R.choice(QD[:-1]), (n,), smallint)
    P.add("stat", [h, x], f="trapezoid", axis=ax)
    return P.done()

@prop("Q01", 2)
def polynomials(R, i):
    P = Prog()
    d = R.choice(QD[:-1])
    f = R.choice(["polyval", "polyval", "polyder", "polyint", "polyint"])
    c = randarr(P, R, d, (R.choice([1, 2, 3, 4, 5]) if R.random() < 0.97 else 0,), lambda R, d: small(R, d, -4, 5))
    if f == "polyval":
        x = randarr(P, R, R.choice(QD), shape(R, maxnd=3), lambda R, d: small(R, d, -3, 3))
        P.add("stat", [c, x], f=f)
    elif f == "polyder":
        P.add("stat", [c], f=f, m=R.choice([0, 1, 1, 2, 3]))
    else:
        m = R.choice([0, 1, 1, 2, 3])
        a = [c]
        if m and R.random() < 0.6:
            a.append(randarr(P, R, R.choice(QD[:-1]), (R.choice([1, m]),), small))
        P.add("stat", a, f=f, m=m)
    return P.done()

@prop("Q01", 1)
def fitting(R, i):
    P = Prog()
    d = R.choice([x for x in QD if x != "bool"])
    def t():
        deg = R.choice([0, 1, 1, 2, 3])
        n = R.randint(deg + 1, 6)
        lo = 0 if d in UI else -3
        xs = [R.randint(lo, 3) for _ in range(n)]
        if len(set(xs)) <= deg:
            return None
        ws = [R.choice([1, 1, 2, 3]) for _ in range(n)] if R.random() < 0.4 else None
        ys = [R.randint(0 if d in UI else -5, 6) for _ in range(n)]
        w = ws or [1] * n
        V = [[Fr(w[k]) * Fr(xs[k]) ** (deg - j) for j in range(deg + 1)] for k in range(n)]
        G = [[sum(V[k][a] * V[k][b] for k in range(n)) for b in range(deg + 1)] for a in range(deg + 1)]
        c = [[sum(z * V[k][b] * w[k] * ys[k] for b, z in enumerate(row) for k in range(n))] for row in inverse(G)]
        q = den(c)
        if q > 20000 or max(abs(x[0]) for x in c) * q * 27 * 9 * 27 * n > 2 ** 30:
            return None
        return deg, xs, ys, ws, q
    deg, xs, ys, ws, q = enough(R, t) or (1, [0, 1], [1, 2], None, 1)
    v1 = lambda x, d: put(P, R, [x], d, (len(x),))
    a = [v1(xs, d), v1(ys, R.choice([d, d, "float64"]))]
    if ws:
        a.append(v1(ws, R.choice([d, "float64"])))
    r = R.random()
    if r < 0.03:
        a[1] = v1(ys + [1], d)
    elif r < 0.06:
        deg = len(xs)
    P.add("polyfit", a, deg=deg, den=q)
    return P.done()

def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
@prop("Q01", 1)
def rooting(R, i):
    P = Prog()
    d = R.choice(["float64", "float64", "float32", "int64", "int32", "int16"])
    ws = []
    n = R.choice([0, 1, 2, 2, 3, 3, 4])
    cand = R.sample(range(-4, 5), 8)
    while len(ws) < n:
        if n - len(ws) >= 2 and R.random() < 0.35:
            a, b = R.randint(-2, 3), R.randint(1, 3)
            if (a, b) not in ws:
                ws += [(a, b), (a, -b)]
        else:
            ws.append((cand.pop(), 0))
    R.shuffle(ws)
    lead = R.choice([1, 1, 2, -1, -3])
    c = [(lead, 0)]
    for w in ws:
        c = [tuple(x - y for x, y in zip(p, cmul(w, q))) for p, q in zip(c + [(0, 0)], [(0, 0)] + c)]
    c = [x[0] for x in c]
    assert max(abs(x) for x in c) < 30000
    c = [0] * R.choice([0, 0, 0, 1, 2]) + c
    if R.random() < 0.05:
        c, ws = [0] * R.choice([1, 3]), []
    P.add("roots", [put(P, R, [c], d, (len(c),))], w=[[a, 1, b, 1] for a, b in ws])
    return P.done()
