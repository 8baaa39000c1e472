"""U01: random generators."""
from gen import *
from gen import _ops

def q(R, lo, hi, d=4):
    """A rational in [lo, hi] with a small denominator."""
    b = R.choice([1, 2, d])
    n = R.randint(lo * b, hi * b)
    g = __import__("math").gcd(n, b)
    return [n // g, b // g]
def bytes_of(n, k):
    return [(n >> (8 * i)) & 255 for i in range(k)]
def new(P, R, g, key=None):
    kind, seed, inc = key or pick(R)
    P.add("rnew", [], n=0, g=g, kind=kind, seed=seed, inc=inc)
    return [kind, seed, inc]
def pick(R, extreme=False):
    if R.random() < 0.35 or extreme:
        # explicit states, including extreme limbs where only the exact sequence is checked
        s = R.choice([R.getrandbits(128), 0, 2**128 - 1, 2**64, R.getrandbits(64), 2**127 + 1]) if extreme else R.getrandbits(128)
        return ["pcg", bytes_of(s, 16), bytes_of(R.getrandbits(128) | 1, 16)]
    s = R.choice([0, 1, 2**32, 2**64 - 1, R.randint(0, 100), R.getrandbits(64)])
    return [R.choice(["seed", "seed", "class"]), bytes_of(s, 8), []]
DIST = ["random", "random", "random_raw", "integers", "integers", "integers", "uniform", "uniform", "standard_normal", "standard_exponential",
        "standard_cauchy", "normal", "laplace", "logistic", "lognormal", "vonmises", "exponential", "rayleigh",
        "standard_gamma", "weibull", "poisson", "gamma", "beta", "wald", "binomial", "chisquare", "standard_t",
        "pareto", "geometric", "negative_binomial", "hypergeometric", "multinomial", "zipf", "triangular", "dirichlet",
        "multivariate_normal", "permutation", "choice", "choice", "shuffle"]
def call(R, f, bad=False):
    """Parameters x, w, c, hi of a call of f; bad: some parameter outside its domain."""
    x, w, c, hi = [], [], [], 0
    pos = lambda: q(R, 1, 5)
    nn = lambda: R.choice([[0, 1], pos(), pos()])
    neg = lambda: [-R.randint(1, 3), 1]
    pr = lambda: R.choice([[0, 1], [1, 1], [1, 2], [1, 4], [3, 4], [1, 8]])
    if f == "integers":
        hi = R.randint(0, 1)
        r = R.random()
        if r < 0.5:
            a, b = R.randint(-9, 9), R.choice([1, 1, 2, 3, 10])
            lo, h = a, a + b
        elif r < 0.8:
            lo, h = sorted(R.choice([-2**63, 2**63 - 1, 0, -1, 2**62, -2**62 - 1, 2**31, R.randint(-2**63, 2**63 - 1)]) for _ in range(2))
            if lo == h:
                h, lo = (h + 1, lo) if h < 0 else (h, lo - 1)
        else:
            k = R.randint(1, 62)
            lo = R.randint(-2**62, 2**61)
            h = lo + (1 << k) + R.randint(-1, 1)
            h = max(h, lo + 1)
        if not hi:
            lo, h = 0, max(1, h)
        if bad:
            h = lo - R.randint(0, 3) if lo > -2**62 else lo
        x = [enc_int(lo), enc_int(h)] if hi else [enc_int(h)]
    elif f == "uniform":
        a = q(R, -5, 5)
        b = q(R, 0, 6)
        s = [a[0] * b[1] + b[0] * a[1], a[1] * b[1]]
        g = __import__("math").gcd(*s)
        x = [a, [s[0] // g, s[1] // g]] if s[0] else [a, [0, 1]]
    elif f in ("normal", "laplace", "logistic", "lognormal"):
        x = [q(R, -5, 5), neg() if bad else nn()]
        if f == "lognormal" and x[1] == [0, 1]:
            x[0] = [0, 1]
    elif f == "vonmises":
        x = [q(R, -3, 3), neg() if bad else R.choice([[0, 1], [1, 2], [1, 1], [4, 1], [50, 1], [1, 100000000]])]
    elif f in ("exponential", "rayleigh", "standard_gamma", "weibull", "poisson"):
        x = [neg() if bad else R.choice([nn(), nn(), [30, 1], [1, 4]])]
    elif f == "gamma":
        x = [neg(), pos()] if bad and R.random() < 0.5 else [pos(), neg()] if bad else [nn(), nn()]
    elif f in ("beta", "wald"):
        x = [pos(), pos()]
        if bad:
            x[R.randint(0, 1)] = R.choice([neg(), [0, 1]])
    elif f == "binomial":
        x = [[R.choice([0, 1, 3, 10, 50, 1000]), 1], pr()]
        if bad:
            x = [[-1, 1], x[1]] if R.random() < 0.4 else [x[0], R.choice([[-1, 4], [5, 4]])]
    elif f in ("chisquare", "standard_t", "pareto"):
        x = [R.choice([neg(), [0, 1]]) if bad else pos()]
    elif f == "geometric":
        x = [R.choice([[0, 1], [-1, 2], [3, 2]]) if bad else R.choice([[1, 1], [1, 2], [1, 10], [3, 4]])]
    elif f == "negative_binomial":
        x = [pos(), R.choice([[1, 1], [1, 2], [1, 10], [3, 4]])]
        if bad:
            x = [R.choice([neg(), [0, 1]]), x[1]] if R.random() < 0.5 else [x[0], R.choice([[0, 1], [3, 2]])]
    elif f == "hypergeometric":
        a, b = R.choice([0, 1, 5, 40]), R.choice([0, 1, 5, 40])
        n = R.randint(0, a + b)
        if bad:
            n = a + b + R.randint(1, 3)
            if R.random() < 0.3:
                a, n = -1, 1
        x = [[a, 1], [b, 1], [n, 1]]
    elif f == "multinomial":
        x = [[R.choice([0, 1, 5, 20, 1000]), 1]]
        w = R.choice([[[1, 2], [1, 4], [1, 4]], [[1, 1]], [[0, 1], [1, 1]], [[1, 2], [1, 2]], [[1, 4]] * 4, [[1, 2], [0, 1], [1, 2]],
                      [[1, 4], [1, 4], [0, 1]], [[1, 1], [0, 1], [0, 1]], [[1, 8]] * 8, [[1, 10]] * 10])
        if bad:
            w = R.choice([[[3, 4], [1, 2], [1, 4]], [[-1, 4], [1, 1]], [[5, 4], [1, 4]], []])
    elif f == "zipf":
        x = [R.choice([[1, 1], [1, 2], neg()]) if bad else R.choice([[3, 2], [2, 1], [5, 1]])]
    elif f == "triangular":
        a = sorted([q(R, -5, 5, 2) for _ in range(3)], key=lambda v: v[0] / v[1])
        if a[0] == a[2]:
            a[2] = [a[2][0] + a[2][1], a[2][1]]
        if bad:
            a = R.choice([[a[2], a[1], a[0]], [a[0], [a[2][0] + a[2][1], a[2][1]], a[2]], [a[0], a[0], a[0]]])
        x = a
    elif f == "dirichlet":
        w = [pos() for _ in range(R.randint(1, 5))]
        if bad:
            w[R.randrange(len(w))] = R.choice([neg(), [0, 1]])
    elif f == "multivariate_normal":
        d = R.randint(1, 3)
        w = [q(R, -5, 5) for _ in range(d)]
        L = [[R.randint(-1, 2) if j <= i else 0 for j in range(d)] for i in range(d)]
        if R.random() < 0.3:
            L = [[v if i == j else 0 for j, v in enumerate(r)] for i, r in enumerate(L)]
        c = [[[sum(L[i][k] * L[j][k] for k in range(d)), 1] for j in range(d)] for i in range(d)]
        if bad:
            if R.random() < 0.5:
                c[R.randrange(d)].append([0, 1])
            else:
                i = R.randrange(d)
                c[i][i] = [-1, 1]
    return dict(x=x, w=w, c=c, hi=hi)
def size(R, rows):
    if R.random() < 0.25:
        return dict(none=1, size=[])
    if rows:
        return dict(none=0, size=[R.choice([0, 1, 2, 3])])
    return dict(none=0, size=R.choice([[1], [2], [3], [0], [2, 2], [1, 3], [2, 1, 2], [0, 2], [4], [7]]))
ROWS = ("multinomial", "dirichlet", "multivariate_normal")
class Src:
    """Arrays to shuffle and to choose from: every dtype and layout."""
    def __init__(self, P, R):
        self.P, self.R, self.hs = P, R, []
    def get(self, fresh=False, zero=False):
        P, R = self.P, self.R
        if self.hs and not fresh and R.random() < 0.4:
            return R.choice(self.hs)
        d = R.choice(ALL)
        s = R.choice([(3,), (4,), (5,), (7,), (1,), (0,), (3, 2), (4, 3), (2, 2, 2), (5, 1), (0, 2), (3, 0)] + ([()] if zero else []))
        h = mk(P, R, s, d, vals(R, prod(s), d, R.choice([smallint, small])), R.choice(LAYOUTS) if s and prod(s) else "C")
        self.hs.append(h)
        return h
def draw(P, R, g, S, f, kw, sz, h=None):
    """Append one draw."""
    p = dict(g=g, f=f, rep=1, kwrep=0, **kw, **sz)
    if f == "shuffle":
        P.add("rshuf", [h], n=0, **dict(p, none=0, size=[]))
        return
    a = [h] if h else []
    if f == "random_raw":
        p.update(none=0, size=[])
    if f == "permutation":
        p.update(none=0, size=[])
        P.add("rand", a, n=1, **p)
        return
    n = 1 if f in _ops.RINT or f in ("random", "random_raw", "choice") else 2
    P.add("rand", a, n=n, **p)
def one(P, R, g, S, f, bad=0.0, kw=None):
    b = R.random() < bad
    sz = size(R, f in ROWS)
    if b:
        sz = dict(none=0, size=[2]) if sz["none"] == 0 or f in ROWS else sz
    if f in ("permutation", "shuffle", "choice"):
        h, x = None, []
        rep, kwrep = 1, R.randint(0, 1)
        if f == "shuffle" or R.random() < 0.6:
            h = S.get(zero=b)
            A = P.sh[h - 1]
            n = A.size
            if f != "choice" and A.ndim == 0 and not b:
                return
            if f == "choice" and n == 0 and not b:
                return
            if f == "choice" and A.dtype.kind == "c" and sz["none"]:
                sz = dict(none=0, size=[2])
        else:
            n = R.choice([1, 2, 3, 5, 8]) if not b else R.choice([-1, 0 if f == "choice" else -2])
            x = [[n, 1]]
        if f == "choice" and R.random() < 0.5:
            rep, kwrep = 0, 1
            if prod(sz["size"]) > n and not b:
                sz = dict(none=0, size=[max(n, 0)])
            if b and R.random() < 0.5:
                sz = dict(none=0, size=[max(n, 0) + 1])
        p = dict(g=g, f=f, rep=rep, kwrep=kwrep, x=x, w=[], c=[], hi=0, **sz)
        if f == "shuffle":
            P.add("rshuf", [h], n=0, **dict(p, none=0, size=[]))
        else:
            if f == "permutation":
                p.update(none=0, size=[])
            P.ev.append({"op": "rand", "a": [h] if h else [], "p": p})
            if not b or f == "permutation" and h and P.sh[h - 1].ndim or f == "choice" and n > 0 and (rep or prod(sz["size"]) <= n):
                P.sh.append(None)
        return
    kw = kw or call(R, f, b)
    if b:
        if f in ("random", "random_raw", "uniform", "standard_normal", "standard_exponential", "standard_cauchy"):
            b = False
        else:
            P.add("rand", [], n=0, g=g, f=f, rep=1, kwrep=0, **kw, **sz)
            return
    draw(P, R, g, S, f, kw, sz)

@prop("U01", 6)
def streams(R, i):
    """Interleaved draws from several generators, some of them sharing a seed."""
    P = Prog("streams")
    S = Src(P, R)
    keys = [pick(R) for _ in range(R.randint(1, 2))]
    n = R.randint(2, 3)
    for g in range(n):
        new(P, R, g, R.choice(keys))
    # a common schedule of calls, each generator grouping the items differently
    plan = []
    for _ in range(R.randint(1, 4)):
        f = R.choice([f for f in DIST if f != "shuffle"])
        if f in ("permutation", "choice"):
            plan.append((f, None, R.choice([1, 2, 3, 5, 8]), S.get() if R.random() < 0.5 else None, R.randint(0, 1)))
        else:
            plan.append((f, call(R, f), R.randint(1, 6), None, 1))
    at = [[0, 0] for _ in range(n)]
    while True:
        live = [g for g in range(n) if at[g][0] < len(plan)]
        if not live:
            break
        g = R.choice(live)
        if R.random() < 0.05:
            break
        f, kw, m, h, rep = plan[at[g][0]]
        if f in ("permutation", "choice"):
            A = None if h is None else P.sh[h - 1]
            if f == "choice":
                pop = m if h is None else A.size
                if pop:
                    k = min(m, pop) if not rep else m
                    left = m - at[g][1] if rep else k
                    t = R.randint(1, left) if rep else k
                    P.add("rand", [h] if h else [], n=1, g=g, f=f, rep=rep, kwrep=1, x=[[m, 1]] if h is None else [], w=[], c=[], hi=0, none=0, size=[t])
                    at[g][1] += t
                    if rep and at[g][1] < m:
                        continue
            elif h is None:
                P.add("rand", [], n=1, g=g, f=f, rep=1, kwrep=0, x=[[m, 1]], w=[], c=[], hi=0, none=0, size=[])
            elif R.random() < 0.5:
                P.add("rand", [h], n=1, g=g, f=f, rep=1, kwrep=0, x=[], w=[], c=[], hi=0, none=0, size=[])
            else:
                c = P.add("copy", [h], shadow=[A.copy()])
                P.add("rshuf", [c], n=0, g=g, f="shuffle", rep=1, kwrep=0, x=[], w=[], c=[], hi=0, none=0, size=[])
            at[g] = [at[g][0] + 1, 0]
            continue
        left = m - at[g][1]
        t = R.randint(1, left)
        ff = f
        if f in ("random", "random_raw"):
            ff = R.choice(["random", "random_raw"])
        if ff == "random_raw":
            t = 1
        if t == 1 and R.random() < 0.6 or ff == "random_raw":
            sz = dict(none=1, size=[])
        elif t > 2 and t % 2 == 0 and f not in ROWS and R.random() < 0.4:
            sz = dict(none=0, size=[2, t // 2])
        else:
            sz = dict(none=0, size=[t])
        draw(P, R, g, S, ff, kw, sz)
        at[g][1] += t
        if at[g][1] >= m:
            at[g] = [at[g][0] + 1, 0]
        if R.random() < 0.05:
            draw(P, R, g, S, f, kw, dict(none=0, size=[0]) if f in ROWS or R.random() < .5 else dict(none=0, size=[2, 0])) if ff != "random_raw" else None
        if R.random() < 0.05:
            one(P, R, g, S, R.choice([f for f in DIST if f not in ("random", "random_raw", "uniform", "standard_normal", "standard_exponential", "standard_cauchy", "permutation", "shuffle", "choice")]), bad=1.0)
    return P.done()

@prop("U01", 5)
def draws(R, i):
    """Draws of every distribution: shapes, dtypes, ranges, rejected parameters."""
    P = Prog("draws")
    S = Src(P, R)
    new(P, R, 0)
    for _ in range(R.randint(2, 6)):
        one(P, R, 0, S, R.choice(DIST), bad=0.15)
    return P.done()

@prop("U01", 3)
def pcg(R, i):
    """The exact PCG64DXSM sequence from an explicit state."""
    P = Prog("pcg")
    new(P, R, 0, pick(R, True))
    for _ in range(R.randint(1, 5)):
        f = R.choice(["random_raw", "random"])
        kw = dict(x=[], w=[], c=[], hi=0)
        draw(P, R, 0, None, f, kw, size(R, False))
    return P.done()

@prop("U01", 4)
def shuffles(R, i):
    """Shuffling views in place, permuting and choosing."""
    P = Prog("shuffles")
    S = Src(P, R)
    new(P, R, 0)
    for _ in range(R.randint(1, 4)):
        r = R.random()
        if r < 0.5:
            one(P, R, 0, S, "shuffle")
        else:
            one(P, R, 0, S, R.choice(["permutation", "choice"]))
    return P.done()

@prop("U01", 2)
def moments(R, i):
    P = Prog("moments")
    new(P, R, 0)
    f = R.choice([f for f in DIST if f not in ("random_raw", "standard_cauchy", "permutation", "choice", "shuffle", "multinomial")] + ["covariance"])
    col = col2 = 0
    pos = lambda: q(R, 1, 4, 2)
    w, c, x = [], [], []
    if f == "integers":
        a = R.randint(-5, 5)
        x = [[a, 1], [a + R.randint(2, 12), 1]]
    elif f in ("standard_t", "pareto"):
        x = [[R.randint(5, 9), 1]]
    elif f == "weibull":
        x = [[R.randint(1, 2), 1]]
    elif f == "lognormal":
        x = [[0, 1], [1, 2]]
    elif f == "vonmises":
        x = R.choice([[[0, 1], [0, 1]], [[1, 1], [50, 1]], [[-2, 1], [50, 1]], [[1, 2], [8, 1]], [[0, 1], [2, 1]]])
    elif f == "zipf":
        x = [[4, 1]]
    elif f in ("multivariate_normal", "covariance"):
        d = R.randint(2, 3)
        L = [[R.randint(-1, 2) if j <= i else 0 for j in range(d)] for i in range(d)]
        w = [[R.randint(-3, 3), 1] for _ in range(d)]
        c = [[[sum(L[i][k] * L[j][k] for k in range(d)), 1] for j in range(d)] for i in range(d)]
        col, col2 = R.randrange(d), R.randrange(d)
    elif f == "hypergeometric":
        a, b = R.randint(1, 9), R.randint(1, 9)
        x = [[a, 1], [b, 1], [R.randint(1, a + b), 1]]
    elif f == "dirichlet":
        w = [pos() for _ in range(R.randint(2, 4))]
        col = R.randrange(len(w))
    elif f == "triangular":
        a = sorted(R.sample(range(-4, 6), 3))
        x = [[v, 1] for v in a]
    elif f == "wald":
        x = [pos(), [R.randint(2, 5), 1]]
    elif f in ("geometric", "negative_binomial"):
        pr = R.choice([[1, 2], [1, 4], [3, 4]])
        x = [pr] if f == "geometric" else [[R.randint(1, 4), 1], pr]
    elif f == "binomial":
        x = [[R.choice([1, 4, 12, 40]), 1], R.choice([[1, 2], [1, 4], [3, 4]])]
    elif f in ("normal", "laplace", "logistic"):
        x = [[R.randint(-4, 4), 1], pos()]
    elif f == "uniform":
        a = R.randint(-5, 5)
        x = [[a, 1], [a + R.randint(1, 9), 1]]
    elif f in ("gamma", "beta"):
        x = [pos(), pos()]
    elif f in ("exponential", "rayleigh", "standard_gamma", "poisson", "chisquare"):
        x = [pos()]
    P.add("rmoment", [], n=1, g=0, f=f, x=x, w=w, c=c, col=col, col2=col2)
    return P.done()

@prop("U01", 2)
def counts(R, i):
    P = Prog("counts")
    new(P, R, 0)
    f = R.choice(["shuffle", "permutation", "permutation_array", "integers", "choice", "pair", "binomial", "hypergeometric", "geometric",
                  "negative_binomial", "multinomial"])
    x, w = [[R.randint(2, 6), 1]], []
    if f in ("shuffle", "permutation", "permutation_array"):
        x = [[R.randint(2, 4), 1]]
    if f == "pair":
        x = [[R.randint(2, 4), 1]]
    if f == "binomial":
        x = [[R.randint(1, 4), 1], R.choice([[1, 2], [1, 3], [2, 3], [1, 4]])]
    if f == "hypergeometric":
        x = [[R.randint(1, 4), 1], [R.randint(1, 4), 1]]
        x.append([R.randint(1, x[0][0] + x[1][0]), 1])
    if f == "multinomial":
        w = R.choice([[[1, 2], [1, 4], [1, 4]], [[1, 3], [2, 3]], [[1, 6], [1, 3], [1, 2]], [[1, 4], [1, 2], [1, 8], [1, 8]]])
    P.add("rcount", [], n=1, g=0, f=f, x=x, w=w, c=[], d=R.choice(["int64", "float64", "int8", "uint16"]), lo=R.randint(-3, 3), trials=600)
    return P.done()
