"""C01: conversion between dtypes, Python objects, NumPy arrays and raw bytes."""
from gen import *

BITS = {"float16": 11, "float32": 24, "float64": 53, "complex64": 24, "complex128": 53}
def castval(R, s, d):
    """A value of dtype s whose conversion to d is defined."""
    for _ in range(50):
        v = castval0(R, s)
        if okcast(v, s, d):
            return v
    return [1, 1] if s not in CX else [1, 1, 0, 1]
def castval0(R, s):
    if s in LO:
        return extreme(R, s)
    if s in CX:
        return special(R, "float32") + special(R, "float32") if R.random() < 0.2 else small(R, s)
    if s in FL:
        r = R.random()
        if r < 0.2:
            return special(R, s)
        if r < 0.6:
            k = R.choice([1, 2, 4, 8])
            n = R.randint(-(1 << min(BITS[s], 29)) + 1, (1 << min(BITS[s], 29)) - 1) >> R.randint(0, 28)
            if s == "float16" and abs(n) > 60000:
                n //= 2
            return enc(n / k, s)
        if s != "float16":
            m = R.randint(1, (1 << BITS[s]) - 1) << R.randint(0, 10)
            return enc_int(R.choice([m, -m]))
    return small(R, s)
def okcast(v, s, d):
    if len(v) == 4:
        return all(x == 0 or y for x, y in (v[:2], v[2:])) and (d in CX or okcast(v[:2], "float32", d)) \
            and (d not in CX or okcast(v[2:], "float32", "float32"))
    if d in CX and len(v) == 7:
        return False
    fin = v[1] != 0
    if d == "bool":
        return True
    if d in LO:
        if s in LO or s == "bool":
            return True
        if not fin:
            return False
        x = dec(v, "float64")
        return LO[d] <= int(x) <= HI[d]
    if not fin:
        return True
    # fractions whose numerator is rounded may leave the encodable range: exact only
    if len(v) == 2 and v[1] > 1:
        return abs(v[0]) < 1 << BITS[d] and abs(v[0] / v[1]) < 2000
    if d == "float16":
        return s in LO or abs(dec(v, "float64")) < 65504
    return True
def carr(P, R, s, d, sh=None, layout=None, **kw):
    sh = shape(R, maxnd=3, **kw) if sh is None else sh
    return mk(P, R, sh, s, [castval(R, s, d) for _ in range(prod(sh))], layout)

@prop("C01", 3)
def astype(R, i):
    P = Prog("astype")
    s, d = R.choice(ALL), R.choice(ALL)
    h = carr(P, R, s, d)
    fn = R.choice([0, 0, 1, 2])
    if fn == 1 and s == d:
        fn = 0
    P.run("astype", [h], d=d, fn=fn)
    if R.random() < 0.3:
        P.run("tolist", [h])
    return P.done()

@prop("C01", 1.5)
def from_np(R, i):
    P = Prog("from_np")
    s = R.choice(ALL)
    d = R.choice(ALL + ["", "", "", "", "", ""])
    sh = shape(R, maxnd=3)
    P.run("asarray_np", s=list(sh), d=s, v=[castval(R, s, d or s) for _ in range(prod(sh))],
          lay=R.choice(["c", "F", "T", "rev", "step", "be", "be", "beT", "ro"]), to=d, fn=R.randint(0, 1))
    return P.done()

@prop("C01", 1)
def from_list(R, i):
    P = Prog("from_list")
    sh = shape(R, maxnd=3, mind=1, empty=0.05)
    if 0 in sh:
        sh = (0,)
    ks = R.choice(["f", "i", "b", "if", "bi", "bif", "fi"])
    to = R.choice(["", "", "", ""] + REAL + ["bool"] + CX)
    kd, v = [], []
    for _ in range(prod(sh)):
        k = R.choice(ks)
        kd.append(k)
        s = {"f": "float64", "i": "int64", "b": "bool"}[k]
        v.append(castval(R, s, to or ("float64" if "f" in ks else "int64" if "i" in ks else "bool")))
    if any(len(x) == 7 for x in v):
        # integers beside floats and beyond 2^53 pass through float64 twice: keep to one rounding
        v = [x if len(x) == 2 else [1, 1] for x in v] if not (set(kd) == {"i"} and to in ("", "int64", "float64")) else v
    if to in LO and to != "int64" and to != "uint64":
        # Python integers outside the dtype are outside the scope
        v = [x if x[1] and LO[to] <= x[0] // x[1] <= HI[to] else [1, 1] for x in v]
    if to == "uint64":
        v = [x if x[1] and x[0] >= 0 else [1, 1] for x in v]
    P.run("fromlist", s=list(sh), kd=kd, v=v, to=to, fn=R.randint(0, 1), ragged=int(prod(sh) > 0 and R.random() < 0.08))
    return P.done()

@prop("C01", 1)
def scalars(R, i):
    P = Prog("scalars")
    d = R.choice(ALL)
    f = R.choice(["item", "int", "float", "complex", "bool"])
    sh = R.choice([(), (1,), (1, 1), (1, 1, 1), (2,), (0,), (1, 3)])
    if f == "int" and d in FL and R.random() < 0.9:
        h = carr(P, R, d, "int64", sh, R.choice(LAYOUTS))
    elif f == "bool" and len(sh) == 1 and sh[0] == 0:
        h = carr(P, R, d, d, (3,))
    else:
        h = carr(P, R, d, "complex128" if f == "complex" else d, sh, R.choice(LAYOUTS))
    P.run("scalar", [h], f=f)
    return P.done()

NB = {"int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8}
@prop("C01", 1)
def bviews(R, i):
    P = Prog("bview")
    s, d = R.choice(INTS), R.choice(INTS)
    sh = shape(R, maxnd=3)
    ok = R.random() < 0.9
    if not ok:
        sh = R.choice([(2, 3), (3, 2), (2, 2, 3)])
    h = carr(P, R, s, s, sh, "c")
    if not ok:
        h = P.run("T", [h])[0]
    P.run("bview", [h], d=d, contig=int(ok))
    return P.done()

@prop("C01", 1)
def buffers(R, i):
    P = Prog("frombuffer")
    d = R.choice(INTS)
    n = R.randint(0, 5) * NB[d] + (R.randint(0, 3) if R.random() < 0.2 else 0)
    off = R.choice([0, 0, 0, 1, 2, NB[d], n, n + 1])
    P.run("frombuffer", b=[R.choice([0, 1, 127, 128, 255, R.randint(0, 255)]) for _ in range(n)], d=d,
          count=R.choice([-1, -1, 0, 1, 2, 6]), off=off)
    return P.done()

@prop("C01", 1)
def orders(R, i):
    P = Prog("order")
    s = R.choice(ALL)
    d = R.choice(ALL + [""] * 8)
    h = carr(P, R, s, d or s)
    P.run("order", [h], f=R.choice(["C", "F", "rC", "rF"]), to=d)
    return P.done()

WIDER = {"bool": ["int8", "uint8", "float16", "float64", "complex64", "int64"], "int8": ["int16", "int32", "int64", "float16", "float32", "complex64"],
         "uint8": ["int16", "uint16", "uint64", "float16", "float32", "complex128"], "int16": ["int32", "int64", "float32", "float64", "complex64"],
         "uint16": ["uint32", "int32", "int64", "float32"], "int32": ["int64", "float64", "complex128"], "uint32": ["int64", "uint64", "float64"],
         "int64": ["uint64"], "uint64": ["int64"], "float16": ["float32", "float64", "complex64"], "float32": ["float64", "complex64", "complex128"],
         "float64": ["complex128"], "complex64": ["complex128"], "complex128": []}
SAME = {"bool": ["uint8", "int8"], "int8": ["uint8"], "int16": ["uint16", "float16", "uint8"], "int32": ["float32", "uint32", "int16"], "int64": ["float64", "uint64", "complex64", "int32"],
        "float16": ["int16", "uint8"], "float32": ["int32", "uint8"], "float64": ["int64", "uint16"], "complex64": ["float32", "int64", "uint8"], "complex128": ["float64", "uint64"],
        "uint8": ["bool", "int8"], "uint16": ["int8"], "uint32": ["uint8"], "uint64": ["int64"]}
@prop("C01", 1.5)
def roundtrips(R, i):
    P = Prog("roundtrip")
    d = R.choice(ALL)
    k = R.choice([0, 1, 2, 3, 4, 5])
    if k == 2 and (d in CX or d == "uint64"):
        k = 0
    if k == 4 and not WIDER[d]:
        k = 5
    sh = shape(R, maxnd=3, mind=1 if k in (1, 2) else 0, empty=0.06 if k not in (1, 2) else 0)
    if k == 1 and d == "uint8":
        k = 0
    h = carr(P, R, d, d, sh)
    P.run("roundtrip", [h], m=k, d=R.choice(WIDER[d]) if k == 4 else R.choice(SAME[d]) if k == 1 else "")
    return P.done()

@prop("C01", 1)
def aliases(R, i):
    """Arrays share memory with the NumPy arrays made from them."""
    P = Prog("np_alias")
    d = R.choice(ALL)
    h = carr(P, R, d, d, shape(R, maxnd=3, mind=1, empty=0), R.choice(["c", "c", "F", "rev", "step", "off", "mix"]))
    hs = list(range(1, h + 1))
    for _ in range(R.randint(1, 3)):
        t = R.choice(hs)
        x = P.sh[t - 1]
        k = [[0, R.randint(-n, n - 1)] if R.random() < 0.4 else [1, 0, 0, 0, 0, 1] for n in x.shape]
        P.run("setitem_sc", [t], k=k, v=small(R, d) if d not in CX else [R.randint(0, 9), 1, 0, 1], d=d if d not in CX else "complex128", bare=0, np=1)
    P.run("tolist", [R.choice(hs)])
    return P.done()
