"""F01: the printed text of arrays."""
from gen import *
from gen_elem import kind
from enc import enc
def value(R, d):
    v = value_(R, d)
    return enc(v[0], "py") if kind(d) in "iu" else v
def value_(R, d):
    k = kind(d)
    if k == "b":
        return [R.choice([0, 1]), 1]
    if k in "iu":
        r = R.random()
        if r < 0.25:
            return [R.choice([LO[d], HI[d], HI[d] - 1, LO[d] + 1, 0]), 1]
        if r < 0.5:
            return [R.randint(LO[d], HI[d]), 1]
        return [R.choice([0, 1, 7, 10, 12, 99, 100, 120, -1 if k == "i" else 1, -10 if k == "i" else 10, -128 if k == "i" else 101]), 1]
    def f():
        return R.choice([[0, 1], [1, 1], [-1, 1], [10, 1], [100, 1], [-100, 1], [1, 2], [-1, 2], [5, 4], [21, 2], [-201, 8], [1000, 1], [205, 16], [1025, 4], [30, 1]])
    if k == "c":
        a, b = f(), f()
        return a + b
    return f() if R.random() < 0.85 else R.choice([[0, 0], [1, 0], [-1, 0]])
SH = [(), (1,), (2,), (3,), (5,), (7,), (9,), (2, 2), (2, 3), (1, 4), (3, 1), (2, 2, 2), (1, 1, 3), (2, 3, 2), (2, 1, 2, 2), (0,), (2, 0), (0, 3), (8, 7), (1, 1, 1, 1)]
def arr_(P, R, d, s):
    n = prod(s)
    return mk(P, R, s, d, [value(R, d) for _ in range(n)])
@prop("F01", 30)
def pr_small(R, i):
    P = Prog()
    d = R.choice(ALL)
    s = R.choice(SH) if R.random() < 0.7 else tuple(R.randint(0, 4) for _ in range(R.randint(1, 4)))
    h = arr_(P, R, d, s)
    P.add("print", [h], f="repr")
    P.add("print", [h], f="str")
    return P.done()
BIG = [((30,), (40, 30)), ((7,), (143, 7)), ((6,), (167, 6)), ((3,), (334, 3)), ((10, 1), (10, 101)), ((2, 1, 9), (2, 60, 9)), ((5, 8), (30, 5, 8)),
       ((4, 5, 1), (4, 5, 51)), ((8,), (125, 8)), ((10,), (10, 10, 10)), ((11,), (91, 11)), ((1, 7), (2, 72, 7)), ((7, 1), (7, 143)), ((2, 6), (100, 2, 6)),
       ((3, 2, 7), (24, 3, 2, 7)), ((1001,), (1001,)), ((1000,), (1000,))]
@prop("F01", 1)
def pr_long(R, i):
    P = Prog()
    d = R.choice(ALL)
    s, t = BIG[i % len(BIG)] if i < 2 * len(BIG) else R.choice(BIG)
    h = arr_(P, R, d, s)
    if s != t:
        h = P.run("broadcast_to", [h], s=list(t))[0]
        if R.random() < 0.5 and len(t) == 2:
            h = P.run("T", [h])[0]
    P.add("print", [h], f=R.choice(["repr", "repr", "str"]))
    return P.done()
