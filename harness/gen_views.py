"""V01 (views) and V02 (writes): chains and histories over shared buffers."""
from gen import *

def rslice(R, n):
    """A random slice item for an axis of length n (bounds may lie outside)."""
    step = R.choice([1, 1, 1, -1, -1, 2, -2, 3, -3, n + 1, -(n + 1)]) or 1
    b = lambda: R.randint(-n - 2, n + 2)
    h1, h2 = int(R.random() < 0.6), int(R.random() < 0.6)
    return [1, h1, b() if h1 else 0, h2, b() if h2 else 0, step]

def rkey(R, s, ints=True, bad=0.03, new=True):
    items = []
    n = len(s)
    m = R.randint(0 if n == 0 else 1, n) if n else 0
    for i in range(m):
        r = R.random()
        if ints and r < 0.3:
            L = s[i]
            if L == 0 and R.random() > bad:
                items.append(rslice(R, L))
            elif R.random() < bad:
                items.append([0, R.choice([L, L + 3, -L - 1, -L - 5])])
            else:
                items.append([0, R.randint(-L, L - 1) if L else 0])
        elif r < 0.4:
            items.append([1, 0, 0, 0, 0, 1])
        else:
            items.append(rslice(R, s[i]))
    if R.random() < 0.2:
        # ellipsis: trailing items address trailing axes
        k = R.randint(0, len(items))
        fixed = items[:k] + [[3]]
        tail = []
        rest = n - k
        t = R.randint(0, rest)
        for i in range(n - t, n):
            tail.append([0, R.randint(-s[i], s[i] - 1)] if ints and s[i] and R.random() < 0.4 else rslice(R, s[i]))
        items = fixed + tail
    if new and R.random() < 0.2:
        items.insert(R.randint(0, len(items)), [2])
    if not items:
        items = [[3]]
    return items

VIEWOPS = ["getitem"] * 8 + ["T", "transpose", "permute", "permute", "swapaxes", "moveaxis", "moveaxes", "rollaxis", "reshape", "reshape",
           "ravel", "flip", "flip", "fliplr", "flipud", "squeeze", "expand_dims", "broadcast_to", "diagonal",
           "atleast_1d", "atleast_2d", "atleast_3d", "rot90", "array_split", "split", "unstack", "mT", "broadcast_arrays", "copy"]

def factor(R, n):
    """A random shape with n elements."""
    if n == 0:
        return R.choice([[0], [0, 2], [3, 0], [0, 0], [2, 0, 2]])
    out = []
    for _ in range(R.randint(0, 3)):
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = R.choice(ds)
        out.append(d)
        n //= d
    out.append(n)
    R.shuffle(out)
    return out

def viewstep(P, R, h, ops=VIEWOPS, bad=0.03):
    """Append one random view call on handle h; returns new handles."""
    x = P.sh[h - 1]
    s, n = x.shape, x.ndim
    op = R.choice(ops)
    if op == "getitem":
        k = rkey(R, s, bad=bad)
        return P.run(op, [h], k=k, bare=int(len(k) == 1 and R.random() < 0.7))
    if op in ("T", "ravel", "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "transpose", "copy"):
        return P.run(op, [h], fn=R.randint(0, 1))
    if op in ("flipud", "fliplr", "mT"):
        if n < 2 and R.random() > bad:
            return []
        return P.run(op, [h])
    if op == "diagonal":
        return P.run(op, [h], fn=R.randint(0, 1)) if n >= 2 or R.random() < bad else []
    if op == "permute":
        if n == 0:
            return []
        ax = list(range(n))
        R.shuffle(ax)
        return P.run(op, [h], axes=ax, fn=R.randint(0, 1))
    if op == "moveaxes":
        if n == 0:
            return []
        m = R.randint(1, n)
        a, b = R.sample(range(n), m), R.sample(range(n), m)
        if R.random() < bad:
            (a if R.random() < 0.5 else b)[R.randrange(m)] = R.randint(-n - 1, n)
        return P.run(op, [h], src=[x - n if R.random() < 0.3 else x for x in a], dst=[x - n if R.random() < 0.3 else x for x in b])
    if op in ("swapaxes", "moveaxis", "rollaxis"):
        if n == 0:
            return []
        return P.run(op, [h], a1=R.randrange(n), a2=R.randrange(n), fn=R.randint(0, 1))
    if op == "reshape":
        t = factor(R, x.size)
        if R.random() < 0.3 and t and prod(t[:-1]) > 0 and x.size:
            t[R.randrange(len(t))] = -1
        return P.run(op, [h], s=t, fn=R.choice([0, 1, 2]))
    if op == "flip":
        if n == 0:
            return []
        return P.run(op, [h], axes=[] if R.random() < 0.3 else [R.randint(-n, n - 1)])
    if op == "squeeze_ax":
        c = [i for i in range(n) if s[i] == 1]
        if not c:
            return []
        return P.run(op, [h], axis=R.choice(c))
    if op == "expand_dims":
        return P.run(op, [h], axis=R.randint(-n - 1, n))
    if op == "broadcast_to":
        t = [R.choice([2, 3]) if d == 1 and R.random() < 0.8 else d for d in s]
        t = [R.choice([1, 2]) for _ in range(R.randint(0, 1))] + t
        if prod(t) > 80 or len(t) > 4:
            return []
        return P.run(op, [h], s=t)
    if op == "broadcast_arrays":
        o = R.randint(1, len(P.sh))
        y = P.sh[o - 1]
        if not isinstance(y, np.ndarray):
            return []
        try:
            b = np.broadcast_shapes(s, y.shape)
        except ValueError:
            return []
        if prod(b) > 80 or len(b) > 5:
            return []
        return P.run(op, [h, o])
    if op == "rot90":
        return P.run(op, [h], k=R.randint(-5, 5)) if n >= 2 else []
    if op in ("array_split", "split"):
        if n == 0:
            return []
        ax = R.randrange(n)
        L = s[ax]
        if op == "split":
            c = [k for k in range(1, max(L, 1) + 1) if L % k == 0]
            k = R.choice(c)
        else:
            k = R.randint(1, L + 1)
        if k > 4:
            return []
        return P.run(op, [h], m=1, k=k, idx=[], axis=ax)
    if op == "unstack":
        if n == 0:
            return []
        ax = R.randrange(n)
        if s[ax] > 4:
            return []
        return P.run(op, [h], axis=ax)
    raise KeyError(op)

READS = ["tolist", "tobytes", "iter", "flat", "meta", "flatten", "copy"]
@prop("V01")
def v01_chain(R, i):
    P = Prog("chain")
    d = R.choice(ALL)
    s = shape(R)
    if R.random() < 0.5:
        h = P.arr(s, d, vals(R, prod(s), d))
    else:
        h = randarr(P, R, d, s)
    cur = [h]
    for _ in range(R.randint(1, 5)):
        new = viewstep(P, R, R.choice(cur[-3:]))
        new = [k for k in new if isinstance(P.sh[k - 1], np.ndarray)]
        if new:
            cur += new[:3]
        if len(P.sh) > 14:
            break
    for _ in range(R.randint(1, 2)):
        h = R.choice(cur[-3:])
        op = R.choice(READS)
        x = P.sh[h - 1]
        if op == "iter" and (x.ndim == 0 or x.shape[0] > 4):
            op = "tolist"
        if op == "flat" and x.ndim == 0:
            op = "tolist"
        P.run(op, [h], fn=R.randint(0, 1))
    return P.done()

# exhaustive: every slice of every short axis, plain and on reversed/strided views
@exhaustive("V01")
def v01_slices(R, tier):
    N = 4 if tier == "quick" else 6
    bounds = lambda n: [None] + list(range(-n - 2, n + 3))
    for n in range(0, N + 1):
        P = None
        for pre in ([], [[1, 0, 0, 0, 0, -1]], [[1, 0, 0, 0, 0, 2]], [[1, 1, 1, 0, 0, 1]]):
            for st in bounds(n):
                for sp in bounds(n):
                    for step in ([1, -1, 2, -2, 3] if tier == "quick" else [1, -1, 2, -2, 3, -3, 5]):
                        if pre and (step in (3, 5) or (st is not None and abs(st) > n)):
                            continue
                        if P is None or len(P.ev) > 40:
                            if P is not None:
                                yield P.done()
                            P = Prog("slices")
                            P.arr([n], "int64", [[j + 10, 1] for j in range(n)])
                            b = 1
                            if pre:
                                P.run("getitem", [1], k=pre, bare=1)
                                b = 2
                            last = pre
                        if last != pre:
                            yield P.done()
                            P = Prog("slices")
                            P.arr([n], "int64", [[j + 10, 1] for j in range(n)])
                            b = 1
                            if pre:
                                P.run("getitem", [1], k=pre, bare=1)
                                b = 2
                            last = pre
                        P.run("getitem", [b], k=[[1, int(st is not None), st or 0, int(sp is not None), sp or 0, step]], bare=(1 if (n + step) % 2 else 0))
        if P is not None:
            yield P.done()

# ---------------------------------------------------------------- V02
def srcd(R, d):
    """dtype of a value source written into an array of dtype d."""
    if R.random() < 0.7:
        return d
    return R.choice([q for q in ALL if q not in CX or d in CX or d == "bool"])
def wide(R, d2, d, lo=-9):
    """A value of dtype d2 to be stored into dtype d; integer sources may be extreme."""
    if d2 in INTS and d in INTS and R.random() < 0.4:
        return extreme(R, d2)
    return smallint(R, d2, lo, 20)

def writestep(P, R, hs, bad=0.05):
    h = R.choice(hs)
    x = P.sh[h - 1]
    s, n = x.shape, x.ndim
    d = str(x.dtype)
    op = R.choice(["setitem_sc"] * 3 + ["setitem"] * 5 + ["fill", "put", "put", "place", "putmask", "copyto", "copyto",
                   "fill_diagonal", "put_along_axis"])
    def sv():
        return (smallint(R, d, -9, 20))
    if not x.flags.writeable and op in ():
        return
    if d in CX and op in ("setitem_sc", "fill"):
        return          # scalars are real
    if op == "setitem_sc":
        k = rkey(R, s, new=False, bad=bad)
        P.run(op, [h], k=k, bare=int(len(k) == 1 and R.random() < 0.6), v=sv(), d=d)
    elif op == "setitem":
        k = rkey(R, s, new=False, bad=bad)
        try:
            from ops import key
            t = x[tuple(key(k))]
        except IndexError:
            t = x
        if not isinstance(t, np.ndarray):
            t = np.asarray(t)
        r = R.random()
        cand = [g for g in range(1, len(P.sh) + 1) if g != h and isinstance(P.sh[g - 1], np.ndarray)
                and P.sh[g - 1].ndim <= t.ndim and bcast_ok(P.sh[g - 1].shape, t.shape)
                and str(P.sh[g - 1].dtype) == d]
        if cand and r < 0.6:
            g = R.choice(cand)
        else:
            ss = list(t.shape)
            for j in range(len(ss)):
                if R.random() < 0.2:
                    ss[j] = 1
            if R.random() < 0.25:
                ss = ss[R.randint(0, len(ss)):]
            if R.random() < bad and ss:
                ss[R.randrange(len(ss))] += 1
            d2 = srcd(R, d)
            lo = 0 if d in UI and d2 in FL else -9      # negative float to unsigned is not specified
            g = mk(P, R, ss, d2, [wide(R, d2, d, lo) for _ in range(prod(ss))])
        P.run(op, [h, g], k=k, bare=int(len(k) == 1 and R.random() < 0.6))
    elif op == "fill":
        P.run(op, [h], v=sv(), d=d)
    elif op == "put":
        if d in CX:
            return
        m = R.randint(0, 4)
        sz = x.size
        ind = [R.randint(-sz, sz - 1) for _ in range(m)] if sz else []
        if R.random() < bad:
            ind.append(sz + R.randint(0, 2))
        P.run(op, [h], ind=ind, v=[sv() for _ in range(R.randint(1, 4))], d=d, fn=R.randint(0, 1))
    elif op in ("place", "putmask"):
        ms = list(s)
        if R.random() < bad and ms:
            ms[R.randrange(len(ms))] += 1
        md = "bool" if R.random() < 0.8 else R.choice(["int64", "uint8", "float64"])
        m = mk(P, R, ms, md, vals(R, prod(ms), md, lambda R, q: [R.randint(0, 1), 1]))
        d2 = srcd(R, d)
        lo = 0 if d in UI and d2 in FL else -9
        P.run(op, [h, m], v=[wide(R, d2, d, lo) for _ in range(R.randint(1, 4))], d=d2)
    elif op == "copyto":
        ss = list(s)
        for j in range(len(ss)):
            if R.random() < 0.25:
                ss[j] = 1
        if R.random() < bad and ss:
            ss[R.randrange(len(ss))] += 1
        cand = [g for g in range(1, len(P.sh) + 1) if g != h and isinstance(P.sh[g - 1], np.ndarray)
                and P.sh[g - 1].shape == s and str(P.sh[g - 1].dtype) == d]
        d2 = srcd(R, d)
        lo = 0 if d in UI and d2 in FL else -9
        g = R.choice(cand) if cand and R.random() < 0.5 else mk(P, R, ss, d2, [wide(R, d2, d, lo) for _ in range(prod(ss))])
        if R.random() < 0.5:
            m = mk(P, R, s, "bool", vals(R, x.size, "bool"))
            P.run(op, [h, g, m])
        else:
            P.run(op, [h, g])
    elif op == "fill_diagonal":
        if n == 2 and d not in CX:
            P.run(op, [h], v=sv(), d=d)
    elif op == "put_along_axis":
        if n == 0 or x.size == 0:
            return
        ax = R.randrange(n)
        ss = list(s)
        ss[ax] = R.randint(1, 3)
        L = s[ax]
        iv = [[R.randint(-L, L - 1), 1] for _ in range(prod(ss))]
        if R.random() < 2 * bad:
            iv[R.randrange(len(iv))] = [R.choice([L, L + 2, -L - 1]), 1]
        idx = mk(P, R, ss, R.choice(["int64", "int64", "int32"]), iv)
        d2 = srcd(R, d)
        lo = 0 if d in UI and d2 in FL else -9
        v = mk(P, R, ss, d2, [wide(R, d2, d, lo) for _ in range(prod(ss))])
        P.run(op, [h, idx, v], axis=ax)

def bcast_ok(s, t):
    try:
        return np.broadcast_shapes(s, t) == tuple(t)
    except ValueError:
        return False

@prop("V02")
def v02_history(R, i):
    P = Prog("history")
    d = R.choice(ALL)
    s = shape(R, mind=1 if R.random() < 0.9 else 0)
    hs = [randarr(P, R, d, s, layout=R.choice(["c", "c", "mix", "F", "rev"]))]
    for _ in range(R.randint(2, 6)):
        if R.random() < 0.5:
            new = viewstep(P, R, R.choice(hs[-4:]), bad=0)
            hs += [k for k in new if isinstance(P.sh[k - 1], np.ndarray) and str(P.sh[k-1].dtype) == d][:3]
        if R.random() < 0.7:
            writestep(P, R, hs[-6:] if R.random() < 0.7 else hs)
        if len(P.sh) > 20:
            break
    if R.random() < 0.3:
        al = [k for k in range(1, len(P.sh) + 1) if isinstance(P.sh[k - 1], np.ndarray)]
        for _ in range(3):
            P.add("shares", [R.choice(al), R.choice(al)], f=R.choice(["shares_memory", "may_share_memory"]))
    return P.done()
