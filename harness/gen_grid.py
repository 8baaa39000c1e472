"""X01: constructors, grids and index utilities."""
from gen import *
from gen_convert import castval

@prop("X01", 2)
def construct(R, i):
    P = Prog("construct")
    r = R.random()
    d = R.choice(ALL)
    if r < 0.25:
        s = shape(R)
        vd = R.choice(["float64", "int64"])
        # integers fill wrapped, floats must be representable
        if d in LO:
            v = extreme(R, d) if vd == "int64" and d != "uint64" else small(R, "uint8")
        else:
            v = smallint(R, "int64") if vd == "int64" else small(R, vd)
        if R.random() < 0.5:
            v = R.choice([[0, 1], [1, 1]])
        if R.random() < 0.5:
            P.run("grid", f="full", s=list(s), d=d, v=v, vd=vd, fn=R.randint(0, 3))
        else:
            s0 = R.choice(ALL)
            h = randarr(P, R, s0, s)
            to = d if R.random() < 0.5 or s0 != d else ""
            if to == "" and s0 != d:
                to = d
            P.run("grid", [h], f="full_like", to=to, v=v, vd=vd, fn=R.randint(0, 1))
    elif r < 0.55:
        fl = R.randint(0, 1)
        den = R.choice([1, 2, 4]) if fl else 1
        q = lambda lo, hi: enc(R.randint(lo, hi) / den, "float64")
        na = R.choice([1, 2, 3, 3, 3])
        to = R.choice(["", "", ""] + REAL)
        start = q(-8, 8) if na > 1 else [0, 1]
        if na == 3:
            step = enc((R.choice([1, 1, 2, 3, 5, -1, -2, -3]) if R.random() > 0.03 else 0) / den, "float64")
        else:
            step = [1, 1]
        stop = q(-10, 30)
        if to in UI and (dec(start, "float64") < 0 or dec(stop, "float64") < 0):
            to = ""
        if to in LO and any(dec(x, "float64") % 1 for x in (start, step)):
            to = ""             # numpy steps by the difference of the two truncated values
        P.run("grid", f="arange", start=start, stop=stop, step=step, fl=fl, na=na, to=to)
    elif r < 0.75:
        num = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 17, 33])
        to = R.choice(["", "", ""] + ["float32", "int32", "int64", "int8"])
        start, stop = R.randint(-9, 9), R.randint(-9, 20)
        if R.random() < 0.3 and to == "":
            start, stop = start / 2, stop / 4
        from fractions import Fraction as Fr
        if to in LO and num > 1:
            step = Fr(stop - start, num - 1)
            if step.denominator != 1 and any((start + step * k).denominator == 1 for k in range(num - 1) if k):
                to = ""         # rounding decides the floor
            if step.denominator & (step.denominator - 1) and (start + step * (num - 1)).denominator == 1:
                to = ""
        P.run("grid", f="linspace", start=enc(float(start), "float64"), stop=enc(float(stop), "float64"), num=num if R.random() > 0.02 else -1, to=to)
    elif r < 0.85:
        num = R.randint(0, 6)
        if R.random() < 0.5:
            base = R.choice([2, 3, 10])
            st = R.choice([1, 1, -1, 2 if base < 10 else 1])
            a = R.randint(-2, 3)
            b = a + st * max(num - 1, 0)
            if not (-5 <= b <= 8):
                b, st, num = a, 0, 1
            P.run("grid", f="logspace", start=a, stop=b, num=num, base=base)
        else:
            num = max(num, 1)
            rr = R.choice([[2, 1], [3, 1], [1, 2], [10, 1] if num < 5 else [2, 1]])
            P.run("grid", f="geomspace", start=R.choice([[1, 1], [3, 1], [5, 2], [-1, 1], [-7, 1]]), r=rr, num=num)
    elif r < 0.92:
        P.run("grid", f="eye", n=R.randint(0, 6), d=d, fn=R.randint(0, 1))
    else:
        P.run("grid", f="tri", n=R.randint(0, 5), m=R.randint(0, 5), k=R.randint(-6, 6), d=d)
    return P.done()

@prop("X01", 2)
def grids(R, i):
    P = Prog("grids")
    f = R.choice(["indices", "meshgrid", "meshgrid", "mgrid", "ogrid", "fromfunction", "ix_", "ndindex", "ndenumerate", "broadcast_shapes", "window", "fftfreq", "fftshift"])
    if f == "indices":
        P.run("grid", f=f, s=list(shape(R, maxnd=3)), d=R.choice(["int64", "int64", "int32", "float64", "uint8"]))
    elif f == "meshgrid":
        n = R.randint(1, 3)
        hs = [randarr(P, R, R.choice(ALL), (R.choice([0, 1, 2, 3, 4]) if R.random() < 0.2 else R.randint(1, 4),)) for _ in range(n)]
        P.run("grid", hs, f=f, ij=R.randint(0, 1))
    elif f in ("mgrid", "ogrid"):
        n = R.randint(1, 3)
        k = []
        for _ in range(n):
            a = R.randint(-4, 4)
            st = R.choice([1, 1, 2, 3])
            k.append([a, a + R.randint(0, 9), st])
        P.run("grid", f=f, k=k)
    elif f == "fromfunction":
        s = shape(R, maxnd=3, mind=1, empty=0)
        P.run("grid", f=f, s=list(s), c=R.randint(0, 5), w=[R.randint(0, 9) for _ in s], d=R.choice(["float64", "int64", "float32", "int32", "uint8"]))
    elif f == "ix_":
        n = R.randint(1, 3)
        hs = [randarr(P, R, R.choice(["int64", "int64", "int32", "uint8", "bool"]), shape(R, maxnd=1, mind=1) if R.random() > 0.04 else (2, 2)) for _ in range(n)]
        P.run("grid", hs, f=f)
    elif f == "ndindex":
        P.run("grid", f=f, s=list(shape(R, maxnd=3)), fn=R.randint(0, 1))
    elif f == "ndenumerate":
        d = R.choice(ALL)
        h = randarr(P, R, d, f=extreme if d in LO else small)
        P.run("grid", [h], f=f)
    elif f == "broadcast_shapes":
        n = R.randint(0, 4)
        t = shape(R)
        ss = []
        for _ in range(n):
            s = [x if R.random() < 0.6 else 1 for x in t][R.randint(0, len(t)):] if R.random() < 0.93 else list(shape(R))
            ss.append(s)
        P.run("grid", f=f, ss=ss)
    elif f == "window":
        w = R.choice(["bartlett", "hanning", "hamming", "blackman"])
        P.run("grid", f=w, m=R.randint(0, 20) if w == "bartlett" else R.choice([0, 1, 2, 3, 4, 5, 7]))
    elif f == "fftfreq":
        P.run("grid", f=R.choice(["fftfreq", "rfftfreq"]), n=R.randint(1, 17), dd=R.choice([[1, 1], [1, 2], [2, 1], [1, 4], [3, 1], [1, 10]]))
    else:
        h = randarr(P, R, R.choice(ALL), shape(R, maxnd=2, mind=1))
        P.run("grid", [h], f=R.choice(["fftshift", "ifftshift"]))
    return P.done()

@prop("X01", 2)
def indexers(R, i):
    P = Prog("indexers")
    f = R.choice(["diag_indices", "diag_indices_from", "tri_indices", "tri_indices", "tri_from", "unravel_index", "unravel_index", "unravel_index", "ravel_multi_index", "ravel_multi_index", "ravel_multi_index"])
    if f == "diag_indices":
        P.run("grid", f=f, n=R.randint(0, 5), m=R.randint(1, 4))
    elif f == "diag_indices_from":
        n = R.randint(1, 4)
        s = (n,) * R.randint(2, 3) if R.random() < 0.85 else R.choice([(2, 3), (3,), (2, 2, 3)])
        P.run("grid", [randarr(P, R, R.choice(ALL), s)], f=f)
    elif f == "tri_indices":
        n = R.randint(0, 5)
        mask = int(R.random() < 0.3)
        P.run("grid", f=R.choice(["tril_indices", "triu_indices"]), n=n, m=n if mask else R.randint(0, 5), k=R.randint(-6, 6), mask=mask)
    elif f == "tri_from":
        P.run("grid", [randarr(P, R, R.choice(ALL), shape(R, maxnd=2, mind=2))], f=R.choice(["tril_indices_from", "triu_indices_from"]), k=R.randint(-4, 4))
    else:
        s = shape(R, mind=1, empty=0)
        n = prod(s)
        o = R.choice(["C", "C", "F"])
        if f == "unravel_index":
            sc = int(R.random() < 0.25)
            pick = lambda: R.randrange(n) if R.random() > 0.01 else R.choice([-1, n, n + 5])
            if sc:
                P.run("grid", f=f, s=list(s), o=o, sc=1, i=pick())
            else:
                t = shape(R, maxnd=3)
                h = mk(P, R, t, R.choice(["int64", "int64", "int32"]), [[pick(), 1] for _ in range(prod(t))])
                P.run("grid", [h], f=f, s=list(s), o=o, sc=0, i=0)
        else:
            mode = R.choice(["raise", "raise", "clip", "wrap"])
            t = (R.randint(1, 6),)
            hs = []
            for x in s:
                v = [[R.randrange(x) if mode == "raise" and R.random() > 0.01 else R.randint(-x - 2, 2 * x + 2), 1] for _ in range(prod(t))]
                hs.append(mk(P, R, t, "int64", v))
            P.run("grid", hs, f=f, s=list(s), o=o, mode=mode)
    return P.done()

@prop("X01", 1)
def bits(R, i):
    P = Prog("bits")
    s = R.choice([(0,), (1,), (7,), (8,), (9,), (16,), (17,), (2, 9), (9, 2), (3, 3), (2, 2, 8), (1, 17), (4, 0)])
    ha = R.randint(0, 1)
    axis = R.randint(-len(s), len(s) - 1) if R.random() > 0.03 else len(s)
    o = R.choice(["big", "little"])
    if R.random() < 0.5:
        d = R.choice(["bool", "uint8", "bool", "uint8"])
        v = [[R.choice([0, 1, 0, 1, 2, 128, 255]) if d != "bool" else R.randint(0, 1), 1] for _ in range(prod(s))]
        P.run("grid", [mk(P, R, s, d, v)], f="packbits", ha=ha, axis=axis, o=o)
    else:
        s = R.choice([(1,), (2,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)])
        d = "uint8" if R.random() > 0.04 else "int32"
        hc = int(R.random() < 0.5)
        tot = 8 * (s[axis] if ha and -len(s) <= axis < len(s) else prod(s))
        P.run("grid", [mk(P, R, s, d, [[R.randint(0, 255), 1] for _ in range(prod(s))])], f="unpackbits", ha=ha, axis=axis, o=o, hc=hc, count=R.randint(-tot, tot + 5))
    return P.done()
