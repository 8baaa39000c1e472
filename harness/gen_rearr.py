"""Joining and splitting (J01), rearranging (M01), gathering and selecting (G01)."""
from gen import *
from gen_elem import kind

def anyd(R):
    return R.choice(ALL + ["float64", "int64", "uint8", "bool"])
def gval(R):
    x = R.random() < 0.4
    return lambda R, d: extreme(R, d) if x and d in INTS else (list(R.choice(SPECIAL)) if x and d in FL and R.random() < 0.3 else small(R, d))
def vary(R, s, ax, mx=4):
    t = list(s)
    t[ax] = R.randint(0 if R.random() < 0.1 else 1, mx)
    return tuple(t)

# ------------------------------------------------------------------ J01
@prop("J01", 4)
def concat(R, i):
    P = Prog()
    d = anyd(R)
    mixed = R.random() < 0.25
    f = R.choice(["concatenate", "concat", "stack", "append"])
    k = R.choice([1, 2, 2, 3, 3, 4, 6])
    if f == "append":
        k = 2
    s = shape(R, maxnd=3, mind=1, empty=0.05)
    ax = R.randrange(len(s) + (f == "stack"))
    g = gval(R) if not mixed else small
    hs = []
    for _ in range(k):
        t = s if f == "stack" else vary(R, s, ax)
        if R.random() < 0.02:
            t = vary(R, s, R.randrange(len(s)))
        hs.append(randarr(P, R, R.choice(["float64", "int64", "int32", "float32", "uint8", "bool"]) if mixed else d, t, g))
    if R.random() < 0.1 and k > 1:
        hs[1] = hs[0]
    p = dict(f=f, axis=ax, none=0)
    if ax == 0 and R.random() < 0.3 and f != "append":
        p["dflt"] = 1
    elif R.random() < 0.03:
        p["axis"] = len(s) + 1
    if f == "append":
        if R.random() < 0.3:
            p["none"] = 1
            hs[1] = randarr(P, R, d, shape(R, maxnd=2), g) if not mixed else hs[1]
        elif R.random() < 0.3:
            p["axis"] -= len(s)
    P.add("join", hs, **p)
    return P.done()
@prop("J01", 3)
def stacks(R, i):
    P = Prog()
    f = R.choice(["vstack", "hstack", "dstack", "column_stack", "row_stack"])
    d = anyd(R)
    k = R.choice([1, 2, 3, 4])
    s = shape(R, maxnd=3 if f != "column_stack" else 2, mind=1, empty=0.03)
    ax = {"vstack": 0, "row_stack": 0, "dstack": 2, "hstack": 1, "column_stack": 1}[f]
    hs = []
    for _ in range(k):
        t = s
        if f == "hstack" and len(s) == 1:
            t = vary(R, s, 0)
        elif len(s) > ax and not (f in ("vstack", "row_stack") and len(s) == 1):
            t = vary(R, s, ax)
        if R.random() < 0.02:
            t = vary(R, s, R.randrange(len(s)))
        hs.append(randarr(P, R, d, t, gval(R)))
    P.add("join", hs, f=f)
    return P.done()
@prop("J01", 1)
def blocks(R, i):
    P = Prog()
    d = R.choice(["float64", "int64", "float32", "int32"])
    if R.random() < 0.4:
        s = shape(R, maxnd=2, mind=1, empty=0)
        hs = [randarr(P, R, d, vary(R, s, len(s) - 1), small) for _ in range(R.choice([1, 2, 3]))]
        P.add("join", hs, f="block", depth=1, rows=[len(hs)])
        return P.done()
    hs, rows = [], []
    m, ncol = R.choice([1, 2, 3]), R.choice([1, 2])
    cw = [R.choice([1, 2, 3]) for _ in range(ncol)]
    for r in range(m):
        hh = R.choice([1, 2, 3])
        for c in cw:
            hs.append(randarr(P, R, d, (hh, c), small))
        rows.append(ncol)
    P.add("join", hs, f="block", depth=2, rows=rows)
    return P.done()
@prop("J01", 3)
def splits(R, i):
    """split (views), observe the parts, join them again"""
    P = Prog()
    d = anyd(R)
    s = list(shape(R, maxnd=3, mind=1, empty=0.03))
    ax = R.randrange(len(s))
    s[ax] = R.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
    h = randarr(P, R, d, s, gval(R))
    f = R.choice(["split", "array_split", "array_split", "unstack", "hsplit", "vsplit", "dsplit"])
    k = R.choice([1, 2, 3, 4, 5])
    if f in ("hsplit", "vsplit", "dsplit"):
        hs = P.run("xsplit", [h], f=f, k=k if R.random() < 0.2 else R.choice([x for x in range(1, 10) if s[{"hsplit": min(1, len(s) - 1), "vsplit": 0, "dsplit": -1}[f]] % x == 0]))
        return P.done()
    if f == "unstack":
        hs = P.run("unstack", [h], axis=ax)
        if hs and len(hs) <= 6:
            P.add("join", hs, f="stack", axis=ax, none=0)
        return P.done()
    if f == "split" and R.random() < 0.9:
        k = R.choice([x for x in range(1, s[ax] + 1) if s[ax] % x == 0])
    hs = P.run(f, [h], m=1, k=k, idx=[], axis=ax)
    if hs:
        P.add("join", hs, f="concatenate", axis=ax, none=0)
    return P.done()

# ------------------------------------------------------------------ M01
@prop("M01", 2)
def rollf(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R), gval(R))
    n = P.sh[h - 1].ndim
    none = int(n == 0 or R.random() < 0.35)
    ax = 0 if none else (R.randrange(-n, n) if R.random() > 0.03 else n)
    P.add("rearr", [h], f="roll", shift=R.choice([0, 1, -1, 2, -2, 3, 5, -7, 11, -13]), none=none, axis=ax)
    return P.done()
@prop("M01", 1.5)
def tilef(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, maxnd=3), gval(R))
    r = [R.choice([1, 2, 1, 3, 0 if R.random() < 0.1 else 2]) for _ in range(R.choice([1, 1, 2, 3]))]
    P.add("rearr", [h], f="tile", reps=r, m=R.choice([0, 1]))
    return P.done()
@prop("M01", 1.5)
def repeatf(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, maxnd=3), gval(R))
    n = P.sh[h - 1].ndim
    none = int(n == 0 or R.random() < 0.35)
    ax = 0 if none else (R.randrange(-n, n) if R.random() > 0.03 else n)
    P.add("rearr", [h], f="repeat", reps=R.choice([0, 1, 2, 3]), none=none, axis=ax, m=R.choice([0, 0, 1]))
    return P.done()
@prop("M01", 2.5)
def padf(R, i):
    P = Prog()
    d = anyd(R)
    s = shape(R, maxnd=3, mind=1, empty=0.03)
    h = randarr(P, R, d, s, gval(R))
    mode = R.choice(["constant", "edge"] if R.random() > 0.02 else ["bogus"])
    r = R.random()
    w = [[R.choice([0, 1, 2, 3]), R.choice([0, 1, 2, 4])] for _ in s]
    m = 0
    if r < 0.25:
        w = [[w[0][0]] * 2] * len(s)
        m = 1
    elif r < 0.5:
        w = [w[0]] * len(s)
        m = 2
    elif len(s) == 2 or len(s) == 1:
        m = 0
    v = [0, 1] if R.random() < 0.5 else [R.choice([1, 5, 3]), 1]
    P.add("rearr", [h], f="pad", w=w, mode=mode, v=v, m=m)
    return P.done()
@prop("M01", 2)
def trif(R, i):
    P = Prog()
    f = R.choice(["tril", "triu"])
    h = randarr(P, R, anyd(R), shape(R, maxnd=3, mind=2) if R.random() > 0.03 else (3,), gval(R))
    P.add("rearr", [h], f=f, k=R.choice([0, 0, 1, -1, 2, -2, 4, -5]), m=R.choice([0, 1]))
    return P.done()
@prop("M01", 2)
def diagf(R, i):
    P = Prog()
    f = R.choice(["diag", "diag", "diagflat"])
    h = randarr(P, R, anyd(R), shape(R, maxnd=2, mind=1), gval(R))
    P.add("rearr", [h], f=f, k=0 if f == "diag" else R.choice([0, 0, 1, -1, 2, -2, 4, -5]), m=0)
    return P.done()
@prop("M01", 1)
def trimf(R, i):
    P = Prog()
    d = anyd(R)
    q = R.choice([0.3, 0.6, 0.9])
    h = randarr(P, R, d, (R.choice([0, 1, 2, 3, 5, 8, 9]),), lambda R, d: [0, 1, 0, 1][:4 if d in CX else 2] if R.random() < q else smallint(R, d))
    f, b = R.choice([(1, 1), (1, 0), (0, 1)])
    P.add("rearr", [h], f="trim_zeros", front=f, back=b)
    return P.done()
@prop("M01", 1)
def resizef(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, maxnd=3, empty=0), gval(R))
    P.add("rearr", [h], f="resize", s=list(shape(R, maxnd=3)))
    return P.done()
@prop("M01", 2)
def delf(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, maxnd=3, mind=1, empty=0), gval(R))
    s = P.sh[h - 1].shape
    n = len(s)
    none = int(R.random() < 0.3)
    ax = 0 if none else (R.randrange(-n, n) if R.random() > 0.03 else n)
    L = prod(s) if none else s[ax] if -n <= ax < n else 1
    P.add("rearr", [h], f="delete", ind=R.randrange(-L, L) if R.random() > 0.04 else R.choice([L, -L - 1]), none=none, axis=ax)
    return P.done()
@prop("M01", 2)
def insf(R, i):
    P = Prog()
    d = anyd(R)
    h = randarr(P, R, d, shape(R, maxnd=3, mind=1, empty=0), gval(R))
    s = P.sh[h - 1].shape
    n = len(s)
    none = int(R.random() < 0.3)
    ax = 0 if none else (R.randrange(-n, n) if R.random() > 0.03 else n)
    L = prod(s) if none else s[ax] if -n <= ax < n else 1
    if none or n == 1:
        t = R.choice([(), (1,), (1,), (2,), (3,)])
    elif -n <= ax < n:
        t = tuple(s[j] for j in range(n) if j != ax % n)
    else:
        t = (1,)
    e = d if R.random() < 0.8 else R.choice(["float64", "int64"]) if d not in CX else d
    v = randarr(P, R, e, t, gval(R) if e == d else lambda R, d: [R.randint(0, 5), 1])
    P.add("insert", [h, v], ind=R.randrange(-L, L + 1) if R.random() > 0.04 else R.choice([L + 1, -L - 1]), none=none, axis=ax)
    return P.done()

# ------------------------------------------------------------------ G01
def indarr(P, R, L, s, bad=0.01, d=None):
    d = d or R.choice(["int64", "int64", "int32", "int8", "uint8"])
    def f(R, d):
        if R.random() < bad or L == 0:
            return [R.choice([L, L + 3] + ([-L - 1] if d not in UI else [])), 1]
        return [R.randrange(-L, L) if d not in UI and R.random() < 0.3 else R.randrange(L), 1]
    return randarr(P, R, d, s, f)
@prop("G01", 3)
def takef(R, i):
    P = Prog()
    f = R.choice(["take", "take", "fancy"])
    h = randarr(P, R, anyd(R), shape(R, maxnd=3, mind=1, empty=0.05), gval(R))
    s = P.sh[h - 1].shape
    none = int(f == "take" and R.random() < 0.35)
    ax = 0 if none or f == "fancy" else R.randrange(len(s))
    L = prod(s) if none else s[ax]
    t = R.choice([(0,), (1,), (2,), (3,), (5,), (9,), (2, 2), (2, 3), (), (1, 2)]) if f == "take" else R.choice([(0,), (1,), (2,), (3,), (5,), (9,), (2, 2), (1, 3)])
    x = indarr(P, R, L, t, bad=0.01)
    P.add("gather", [h, x], f=f, none=none, axis=ax, m=R.choice([0, 0, 1, 2]) if f == "take" else R.choice([0, 0, 1]))
    return P.done()
@prop("G01", 2)
def maskf(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, mind=1), gval(R))
    s = P.sh[h - 1].shape
    q = R.choice([0.1, 0.5, 0.9, 0, 1])
    f = R.choice(["mask", "mask", "extract"])
    t = s if R.random() > 0.04 else s + (1,)
    m = randarr(P, R, "bool" if f == "mask" else R.choice(["bool", "int32", "float64"]), t, lambda R, d: [int(R.random() < q), 1])
    P.add("gather", [h, m] if f == "mask" else [m, h], f=f)
    return P.done()
@prop("G01", 2)
def alongf(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, maxnd=3, mind=1, empty=0.03), gval(R))
    s = P.sh[h - 1].shape
    ax = R.randrange(len(s))
    t = list(s)
    t[ax] = R.choice([0, 1, 2, 3, 5])
    if R.random() < 0.03:
        t = t + [1]
    x = indarr(P, R, s[ax], tuple(t), bad=0.005)
    P.add("gather", [h, x], f="take_along_axis", axis=ax, none=0)
    return P.done()
@prop("G01", 1)
def argsorted(R, i):
    """gathering with argsort's indices gives the sorted array"""
    P = Prog()
    d = R.choice(["float64", "int64", "uint64", "int8"])
    h = randarr(P, R, d, shape(R, maxnd=3, mind=1, empty=0), gval(R))
    n = P.sh[h - 1].ndim
    ax = R.randrange(n)
    x = P.run("argsort", [h], none=0, axis=ax, m=0)
    P.add("gather", [h, x[0]], f="take_along_axis", axis=ax, none=0)
    return P.done()
@prop("G01", 1.5)
def compressf(R, i):
    P = Prog()
    h = randarr(P, R, anyd(R), shape(R, maxnd=3, mind=1, empty=0.03), gval(R))
    s = P.sh[h - 1].shape
    none = int(R.random() < 0.35)
    ax = 0 if none else R.randrange(len(s))
    L = prod(s) if none else s[ax]
    k = max(0, min(L, 12) - R.choice([0, 0, 0, 1]))
    if R.random() < 0.03:
        k = L + 2
    m = randarr(P, R, "bool", (k,), lambda R, d: [R.randint(0, 1), 1])
    P.add("gather", [m, h], f="compress", none=none, axis=ax, m=R.choice([0, 1]))
    return P.done()
@prop("G01", 1.5)
def choosef(R, i):
    P = Prog()
    d = R.choice(["float64", "int64", "int32", "float32", "uint8", "uint64", "bool"])
    s = shape(R, maxnd=3)
    k = R.choice([1, 2, 3, 4])
    sub = lambda: s if R.random() < 0.7 else tuple(1 if R.random() < 0.5 else x for x in s)
    x = randarr(P, R, R.choice(["int64", "int32", "uint8"]), sub(), lambda R, d: [R.randrange(k) if R.random() > 0.003 else k, 1])
    g = gval(R)
    P.add("gather", [x] + [randarr(P, R, d, sub(), g) for _ in range(k)], f="choose")
    return P.done()
@prop("G01", 1.5)
def selectf(R, i):
    P = Prog()
    d = R.choice(["float64", "int64", "int32", "float32", "uint8", "uint64"])
    s = shape(R, maxnd=3)
    k = R.choice([1, 2, 3])
    sub = lambda: s if R.random() < 0.8 else tuple(1 if R.random() < 0.5 else x for x in s)
    g = gval(R)
    P.add("gather", [randarr(P, R, "bool", sub(), small) for _ in range(k)] + [randarr(P, R, d, sub(), g) for _ in range(k)],
          f="select", m=k, v=R.choice([[0, 1], [7, 1]]))
    return P.done()
@prop("G01", 1)
def wheref(R, i):
    P = Prog()
    d = R.choice(ALL)
    s = shape(R, maxnd=3)
    sub = lambda: s if R.random() < 0.7 else tuple(1 if R.random() < 0.5 else x for x in s)
    g = gval(R)
    c = randarr(P, R, R.choice(["bool", "bool", "int32"]), sub(), small)
    P.add("where3", [c, randarr(P, R, d, sub(), g), randarr(P, R, d, sub(), g)])
    return P.done()
