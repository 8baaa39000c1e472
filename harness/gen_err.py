"""E01: calls with arguments inside and outside their domain, among live arrays that share memory."""
from gen import *
from ops import PRE
from gen_views import viewstep

SH = [(3,), (1,), (0,), (4,), (2, 3), (3, 3), (1, 3), (3, 1), (2, 2), (2, 0), (0, 3), (2, 3, 2), (1, 2, 3), (2, 2, 2), ()]
KEYS = sorted(PRE)
TWO = {"concatenate", "stack", "bcast", "bits", "matmul", "dot", "inner", "tensordot", "solve", "cross", "vstack", "hstack", "dstack",
       "column_stack", "searchsorted", "signal", "same"}
def near(R, s):
    """A shape equal or close to s."""
    r = R.random()
    if r < 0.45 or not s:
        return s
    s = list(s)
    i = R.randrange(len(s))
    if r < 0.65:
        s[i] = R.choice([0, 1, s[i] + 1, 3])
    elif r < 0.8:
        s.insert(R.randint(0, len(s)), R.choice([1, 2, 3]))
    elif r < 0.9:
        del s[i]
    else:
        return R.choice(SH)
    return tuple(s)
def new(P, R, s, d=None, lo=0):
    d = d or R.choice(["float64", "float64", "int64", "int32", "uint8", "float32"])
    return P.arr(s, d, [[R.randint(max(lo, 0) if d[0] == "u" else lo, 5), 1] for _ in range(prod(s))])
def pick(R, P, s0=None, nd=None, nonempty=False):
    for _ in range(8):
        s = s0 if s0 is not None else R.choice(SH)
        if (nd is None or len(s) in nd) and not (nonempty and prod(s) == 0):
            return s
        s0 = None
    return (3,)
def bad(R, n):
    """An axis, often just outside."""
    return R.choice([R.randint(0, max(n - 1, 0)), R.randint(0, max(n - 1, 0)), R.randint(-n, n) if n else 0, n, n + 1, -n - 1, 7, -9])
def preop(P, R, key, base=None):
    g, f = key
    p = dict(g=g, f=f)
    nd = None
    nonempty = False
    lo = 0
    if g in ("ax", "me", "axn", "diff", "repeat", "take", "split", "compress", "partition", "delete", "nsplit") or f in ("nonzero", "merepeat"):
        nd = (1, 2, 3)
    if g == "insert" or f in ("fft", "cov"):
        nd = (1, 2, 3) if f == "cov" else (1,)
        nonempty = f == "fft"
    if g in ("signal", "inner"):
        nd = (1,) if R.random() < 0.7 or g == "inner" else (1, 2, 3)
    if f in ("tril", "triu"):
        nd = (0, 2, 3)
    if g in ("square", "matpow") or f in ("qr", "svd", "pinv", "trace", "metrace"):
        nd = (0, 1, 2)
        nonempty = True
    if g in ("solve",):
        nd = (0, 1, 2)
        nonempty = True
    if f in ("pad", "tile", "histogram", "cov", "average"):
        nonempty = True
        nd = nd or (1, 2)
    if g in ("percent", "axn"):
        nd = (1, 2, 3)
    if g in ("hstack", "dstack", "vstack", "column_stack"):
        nd = (1, 2, 3)
    s = pick(R, P, P.sh[base - 1].shape if base and R.random() < 0.4 else None, nd, nonempty)
    d = None
    if f in ("solve", "inv", "pinv", "average") or g == "square":
        a = s
        h = P.arr(s, "float64", [[9 + i, 1] if len(s) == 2 and i // s[1] == i % s[1] else [R.randint(1, 3), 1] for i in range(prod(s))])
    elif g == "bincount":
        h = new(P, R, s, R.choice(["int64", "int64", "int32", "uint8", "float64"]), R.choice([0, 0, -1]))
        if P.sh[h - 1].dtype == "uint8" and R.random() < 2:
            pass
    elif g == "unpack":
        h = new(P, R, R.choice([x for x in SH if prod(x)]), R.choice(["uint8", "uint8", "int64", "float64"]))
    elif g == "bits":
        s = R.choice([x for x in SH if prod(x)])
        h = new(P, R, s, R.choice(["int64", "uint8", "float64", "int32"]))
    elif g == "numeric":
        if f[0] == "2":
            s = (2,)
        h = P.arr((2,), "str", [[97], [98]]) if R.random() < 0.5 else new(P, R, s, lo=1)
    else:
        same = [i + 1 for i, x in enumerate(P.sh) if getattr(x, "shape", None) == s and hasattr(x, "dtype") and x.dtype.kind in "iuf"]
        if same and R.random() < 0.5 and not (g == "bcast"):
            h = R.choice(same)
        else:
            h = new(P, R, s, lo=1 if g == "bcast" else 0)
    n = len(s)
    a = [h]
    if f[0] == "2":
        a.append(P.arr((2,), "str", [[97], [98]]) if R.random() < 0.5 else new(P, R, s, "int64", 1))
    if g in TWO:
        t = near(R, s)
        if g in ("solve",):
            t = R.choice([s[:1], s[:1], s, (2,), (3,), (3, 2)]) if s else (2,)
            if prod(t) == 0 or len(t) > 2 or not t:
                t = (3,)
        if g == "inner":
            t = R.choice([s, s, (3,), (1,), (4,)])
        if g == "cross":
            s2 = [(3,), (3,), (4,), (1,)]
            a = [new(P, R, R.choice(s2))]
            t = R.choice(s2)
        if g in ("matmul", "dot") and n >= 1 and R.random() < 0.6:
            t = R.choice([(s[-1],), (s[-1], 2), s[:-2] + (s[-1], 2)])
        if g == "tensordot":
            p["k"] = R.randint(1, 3)
            if not n:
                return preop(P, R, key)
            if R.random() < 0.6:
                t = s[-p["k"]:] + (2,)
        if g in ("hstack", "dstack", "vstack", "column_stack", "searchsorted", "signal", "tensordot") and len(t) == 0:
            t = (1,)
        if g == "signal" and R.random() < 0.7:
            t = R.choice([(1,), (2,), (3,), (0,)])
        if g == "searchsorted":
            t = R.choice(SH)
            if n == 0:
                return preop(P, R, key)
        if g == "bits":
            t = s
        a.append(new(P, R, t, "float64" if g in ("solve", "same") else R.choice(["int64", "uint8", "float64"]) if g == "bits" else None, 1))
        if (g in ("hstack", "dstack", "vstack", "column_stack", "stack") or f in ("concatenate", "broadcast_arrays")) and R.random() < 0.4:
            t = near(R, s) if s else s
            a.append(new(P, R, t if t else (1,)))
            if R.random() < 0.3 and f != "broadcast_arrays":
                a.insert(1, new(P, R, s))
    if f == "where":
        a = [new(P, R, s, "bool") if False else new(P, R, s), a[1], new(P, R, near(R, s))]
    if g == "interp":
        t = R.choice([(3,), (2,), (1,), (0,), (2, 2)])
        k = prod(t)
        a.append(P.arr(t, "float64", [[i, 1] for i in range(k)]))
        a.append(new(P, R, near(R, t) if R.random() < 0.5 else t, "float64"))
    if g in ("ax", "me", "axn", "diff", "repeat", "take", "split", "compress", "partition", "delete", "insert", "swapaxes", "moveaxis", "rollaxis",
             "rot90", "stack", "concatenate"):
        p["ax"] = bad(R, n)
    if g in ("axn", "split", "take", "compress") or f == "concatenate":
        p["ax"] = abs(p["ax"])          # these functions take unsigned axes
    if g == "stack":
        p["ax"] = R.choice([0, 0, n, R.randint(0, n), n + 1])
    if g == "expand_dims":
        p["ax"] = R.randint(-n - 3, n + 2)
    if f == "roll":
        p["k"] = R.randint(-4, 4)
    if f in ("average",) and "ax" in p and prod(s) == 0:
        return preop(P, R, key)
    m = s[p["ax"]] if "ax" in p and -n <= p["ax"] < n else 3
    if g == "axn" or g == "percent":
        p["k"] = R.choice([0, 25, 50, 100, -1, 101]) if f == "percentile" else R.randint(-1, 5)
        if g == "percent" and f == "quantile":
            pass
    if g in ("diff", "count", "matpow"):
        p["k"] = R.choice([0, 1, 2, 3] if g == "matpow" else [0, 1, 2, 3, -1, -2])
    if g == "repeat":
        p["k"] = R.choice([0, 1, 2, -1])
        if prod(s) == 0 and p["k"] < 0:
            p["k"] = 1
    if g in ("delete", "insert"):
        p["k"] = R.choice([0, -1, m - 1, m, m + 1, -m, -m - 1])
    if g in ("split", "nsplit"):
        p["k"] = R.choice([1, 2, 3, 0, 4])
    if g == "diff" and not -n <= p["ax"] < n:
        p["k"] = R.choice([1, 2, -1])
    if g == "partition" and m == 0:
        return preop(P, R, key)
    if g == "partition":
        p["k"] = R.choice([0, max(m - 1, 0), m, m + 1])
    if g in ("swapaxes",):
        p["k"] = abs(bad(R, n))
        p["ax"] = abs(p["ax"])
    if g in ("moveaxis", "rollaxis", "rot90"):
        p["k"] = bad(R, n)
    if g == "permute":
        p["idx"] = R.sample(range(n), n) if R.random() < 0.5 else [R.randint(0, n) for _ in range(R.choice([n, n, n + 1, max(n - 1, 0)]))]
    if g == "reshape":
        t = list(s)
        R.shuffle(t)
        r = R.random()
        if r < 0.3:
            t = [prod(s)]
        if r > 0.6 and t:
            t[R.randrange(len(t))] = R.choice([-1, -1, -2, 0, 2, 5])
        if r > 0.85:
            t.insert(0, R.choice([-1, 2, 1]))
        p["s"] = t
    if g == "broadcast_to":
        t = list(near(R, s))
        if R.random() < 0.4:
            t.insert(0, R.choice([1, 2, 0]))
        t = [R.choice([2, 3]) if x == 1 and R.random() < 0.5 else x for x in t]
        p["s"] = t
    if g == "sizes":
        p["s"] = [R.choice([0, 1, 2, 3, 2, -1]) for _ in range(R.randint(1, 3))]
    if g in ("take", "compress"):
        if g == "take":
            p["idx"] = [R.choice([0, -1, m - 1, -m, R.randint(-m, m), m if R.random() < 0.3 else 0]) for _ in range(R.randint(0, 4))]
        else:
            p["idx"] = [R.choice([0, 0, 1]) for _ in range(R.choice([m, m, m + 1, max(m - 1, 0), m + 2]))]
    if g == "flatidx" or g == "firstidx":
        m = prod(s) if g == "flatidx" else s[0] if s else 1
        p["idx"] = [R.choice([0, -1, m - 1, -m, m if R.random() < 0.3 else 0, -m - 1 if R.random() < 0.2 else 0]) for _ in range(R.randint(1 if f == "fancy" else 0, 4))]
        if g == "firstidx" and n == 0:
            return preop(P, R, key)
    if g == "mask":
        t = near(R, s)
        if len(t) < n and s[:len(t)] == t or n == 0 or not t:
            t = s
        if n == 0 or prod(s) == 0 or prod(t) == 0:
            return preop(P, R, key)
        p["s"] = list(t)
        p["idx"] = [R.randint(0, 1) for _ in range(prod(t))]
    if g == "unravel":
        t = [R.randint(1, 4) for _ in range(R.randint(1, 3))]
        m = prod(t)
        p["s"] = t
        p["idx"] = [R.choice([0, m - 1, R.randrange(m), R.choice([m, -1, m + 3]) if R.random() < 0.3 else 0]) for _ in range(R.randint(1, 4))]
    if g == "ravelmi":
        t = [R.randint(1, 4) for _ in range(R.randint(1, 3))]
        q = R.randint(1, 3)
        p["s"] = t
        p["mi"] = [[R.choice([0, x - 1, R.randrange(x), R.choice([x, -1]) if R.random() < 0.2 else 0]) for _ in range(q)] for x in (t if R.random() < 0.8 else t + [2])]
    if g == "choose":
        p["k"] = R.randint(1, 3)
        if n != 1 or s[0] == 0:
            s = (3,)
            a = [new(P, R, s)]
        p["idx"] = [R.choice([0, p["k"] - 1, R.randrange(p["k"]), R.choice([p["k"], -1]) if R.random() < 0.3 else 0]) for _ in range(s[0])]
    if g == "step":
        p["k"] = R.choice([1, 2, -1, 0])
    if g == "bins":
        p["k"] = R.choice([1, 3, 0, 5])
    if g == "upto":
        p["k"] = 2
    if g == "exactly":
        p["k"] = 1 if f == "fft" else 2
    if g == "atleast":
        p["k"] = {"flipud": 1, "nonzero": 0}.get(f, 2)
    if g == "dtype":
        p["nm"] = R.choice(["float64", "int33", "foo", "float32", "bool", "", "complex128", "int8", "float63", "uint64", "float16", "ints", "Float64"])
    if g == "einsum":
        labs = [[R.randint(1, 3) for _ in range(max(n + R.choice([0, 0, 0, 0, 1, -1]), 0))]]
        if R.random() < 0.5:
            t = near(R, s)
            a.append(new(P, R, t))
            labs.append([R.randint(1, 4) for _ in range(len(t))])
        if n == 0:
            return preop(P, R, key)
        if R.random() < 0.6:
            labs[0] = R.sample([1, 2, 3, 4, 5, 6], n)
        al = [x for l in labs for x in l]
        out = R.sample(sorted(set(al)), R.randint(0, min(2, len(set(al)))))
        if R.random() < 0.15:
            out.append(R.choice(out) if out and R.random() < 0.5 else 8)
        if any(not l for l in labs):
            return preop(P, R, key)
        sz = {}
        for x, l in zip([P.sh[i - 1].shape for i in a], labs):
            for d, c in zip(x, l):
                sz.setdefault(c, set()).add(d)
        if any(1 in v and len(v) > 1 for v in sz.values()):
            return preop(P, R, key)         # NumPy would stretch the length-1 axis
        p["labs"], p["out"] = labs, out
    if g in ("count", "sizes", "step") and f not in ("pad", "tile"):
        a = a[:1]
    P.add("pre", a, n=0, **p)

@prop("E01", 1)
def errors(R, i):
    P = Prog("errors")
    h = new(P, R, R.choice([x for x in SH if prod(x)]))
    for _ in range(R.randint(0, 2)):
        k = viewstep(P, R, R.choice([j + 1 for j, x in enumerate(P.sh) if isinstance(x, np.ndarray)]), bad=0.3)
    for j in range(R.randint(3, 6)):
        key = KEYS[(i * 7 + j * 31 + R.randint(0, 3)) % len(KEYS)] if j < 3 else R.choice(KEYS)
        live = [q + 1 for q, x in enumerate(P.sh) if isinstance(x, np.ndarray)]
        preop(P, R, key, R.choice(live))
    return P.done()
