"""Contractions (K01): products of arrays summed over shared labels."""
from gen import *
from gen_elem import kind

KD = ALL + ["float64", "int64", "complex128", "float32", "float64"]
def kval(R):
    x = R.random() < 0.35
    return lambda R, d: (extreme(R, d) if x and d in INTS else smallint(R, d, -4, 6) if d in ("float16", "float32", "complex64") else small(R, d))
def pair(R):
    """dtypes of two operands"""
    d = R.choice(KD)
    return (d, d) if R.random() < 0.8 else (R.choice(["float64", "int64", "int32", "float32", "bool", "complex128"]), R.choice(["float64", "int64", "float32", "uint8", "complex128"]))
def dim(R, zero=0.04):
    return 0 if R.random() < zero else R.choice([1, 2, 2, 3, 3, 4, 5])
def gv(R, d, e):
    return kval(R) if d == e else (lambda R, d: smallint(R, d, -4, 6))
def bump(R, s):
    """occasionally a shape that does not fit"""
    s = list(s)
    if s and R.random() < 0.04:
        s[R.randrange(len(s))] += 1
    return tuple(s)
@prop("K01", 5)
def matmulf(R, i):
    P = Prog()
    d, e = pair(R)
    m, n, p = dim(R), dim(R), dim(R)
    L = tuple(R.choice([1, 2, 3]) for _ in range(R.choice([0, 0, 0, 1, 1, 2])))
    def lead():
        t = L[R.randint(0, len(L)):] if L and R.random() < 0.4 else L
        return tuple(1 if R.random() < 0.25 else x for x in t)
    f = R.choice(["matmul", "matmul", "dot", "inner"])
    a, b = ((m, n), (n, p)) if f != "inner" else ((n,), (n,))
    if f == "dot":
        a = tuple(dim(R) for _ in range(R.choice([0, 0, 1]))) + a
        b = tuple(dim(R) for _ in range(R.choice([0, 0, 0, 1]))) + b
    else:
        a, b = lead() + a, lead() + b
    if R.random() < 0.15 and f != "inner":
        a = (n,)
    if R.random() < 0.15 and f != "inner":
        b = (n,)
    if f == "dot" and R.random() < 0.1:
        a, b = R.choice([((), b), (a, ()), ((), ())])
    g = gv(R, d, e)
    P.add("contract", [randarr(P, R, d, bump(R, a), g), randarr(P, R, e, bump(R, b), g)], f=f, m=R.choice([0, 1]))
    return P.done()
@prop("K01", 1.5)
def outers(R, i):
    P = Prog()
    d, e = pair(R)
    f = R.choice(["outer", "kron", "vdot", "cross"])
    s, t = shape(R, maxnd=2, mind=1), shape(R, maxnd=2, mind=1)
    if f == "kron":
        s, t = (tuple(dim(R) for _ in range(R.choice([1, 2, 2, 3]))) for _ in range(2))
        s, t = tuple(min(x, 3) for x in s), tuple(min(x, 3) for x in t)
    if f == "vdot":
        d, e = [("float64" if x == "bool" else x) for x in (d, e)]
        t = bump(R, s) if R.random() < 0.7 else (prod(s),)
    if f == "cross":
        s, t = bump(R, (3,)), bump(R, (3,))
    g = gv(R, d, e) if f != "vdot" else lambda R, d: smallint(R, d, -4, 6)
    P.add("contract", [randarr(P, R, d, s, g), randarr(P, R, e, t, g)], f=f)
    return P.done()
@prop("K01", 2)
def tdots(R, i):
    P = Prog()
    d, e = pair(R)
    n = R.choice([0, 1, 1, 2, 2, 3])
    con = [dim(R) for _ in range(n)]
    fa = [dim(R) for _ in range(R.choice([0, 1, 1, 2]))]
    fb = [dim(R) for _ in range(R.choice([0, 1, 1, 2]))]
    if R.random() < 0.35:     # equal axes: nothing but the axis numbers tells them apart
        k = R.choice([2, 2, 3])
        con, fa, fb = [k] * n, [k] * len(fa), [k] * len(fb)
        if R.random() < 0.4:
            n, con, fa, fb = 1, [k], [k], [k]
    g = gv(R, d, e)
    if R.random() < 0.4:      # integer axes
        a, b = tuple(fa + con), tuple(con + fb)
        xa, xb = list(range(len(fa), len(a))), list(range(n))
        m = n
    else:
        la = [("f", k) for k in range(len(fa))] + [("c", k) for k in range(n)]
        lb = [("f", k) for k in range(len(fb))] + [("c", k) for k in range(n)]
        R.shuffle(la), R.shuffle(lb)
        a = tuple(fa[k] if t == "f" else con[k] for t, k in la)
        b = tuple(fb[k] if t == "f" else con[k] for t, k in lb)
        order = list(range(n))
        R.shuffle(order)
        xa = [la.index(("c", k)) for k in order]
        xb = [lb.index(("c", k)) for k in order]
        if R.random() < 0.3:
            xa = [x - len(a) for x in xa]
            xb = [x - len(b) for x in xb]
        elif R.random() < 0.05:
            xa = xa + [len(a)]
            xb = xb + [len(b)]
        m = -1
    P.add("contract", [randarr(P, R, d, bump(R, a), g), randarr(P, R, e, bump(R, b), g)], f="tensordot", xa=xa, xb=xb, m=m)
    return P.done()
@prop("K01", 4)
def einsums(R, i):
    P = Prog()
    d, e = pair(R)
    nl = R.choice([1, 2, 2, 3, 3, 4])
    size = {l: dim(R, 0.02) for l in range(1, nl + 1)}
    k = R.choice([1, 1, 2, 2, 2, 2, 3, 3, 4])
    if k >= 3:
        size = {l: min(n, 3) for l, n in size.items()}
    labs = []
    for _ in range(k):
        q = [R.randint(1, nl) for _ in range(R.choice([0, 1, 1, 2, 2, 3]) if k > 1 else R.choice([1, 2, 2, 3, 3]))]
        if R.random() < 0.7:
            q = list(dict.fromkeys(q))
        labs.append(q)
    used = sorted({l for q in labs for l in q})
    allq = [l for q in labs for l in q]
    perm = R.sample(range(26), nl)
    ch = {l: chr(97 + perm[l - 1]) for l in size}
    implicit = int(R.random() < 0.25)
    if implicit:
        out = [l for l in sorted(used, key=lambda l: ch[l]) if allq.count(l) == 1]
    else:
        out = R.sample(used, R.randint(0, len(used)))
        if out and R.random() < 0.03:
            out = out + [out[0]]
    g = (lambda R, d: smallint(R, d, -3, 4)) if k > 2 else gv(R, d, e)
    hs = [randarr(P, R, d if j % 2 == 0 else e, bump(R, tuple(size[l] for l in q)), g) for j, q in enumerate(labs)]
    subs = ",".join("".join(ch[l] for l in q) for q in labs)
    if not implicit:
        subs += "->" + "".join(ch[l] for l in out)
    if R.random() < 0.1:
        subs = subs.replace(",", ", ")
    P.add("contract", hs, f="einsum", labs=labs, out=out, subs=[ord(c) for c in subs], m=implicit)
    return P.done()
@prop("K01", 1.5)
def powers(R, i):
    P = Prog()
    d = R.choice([x for x in KD if x != "bool"])
    f = R.choice(["matrix_power", "trace", "multi_dot"])
    if f == "multi_dot":
        ds = [dim(R, 0) for _ in range(R.choice([3, 4, 5]))]
        hs = [randarr(P, R, d, bump(R, (x, y)), lambda R, d: smallint(R, d, -3, 3)) for x, y in zip(ds, ds[1:])]
        P.add("contract", hs, f=f)
        return P.done()
    n = dim(R)
    s = (n, n) if f == "matrix_power" else (n, dim(R))
    if R.random() < 0.05:
        s = R.choice([(3,), (2, 3), (2, 2, 2)]) if f == "matrix_power" else (4,)
    g = (lambda R, d: smallint(R, d, -2, 3)) if f == "trace" or d not in INTS or R.random() < 0.5 else extreme
    P.add("contract", [randarr(P, R, d, s, g)], f=f, m=R.choice([0, 1, 2, 3, 4] if d in INTS else [0, 1, 2, 3]))
    return P.done()
