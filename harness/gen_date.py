"""D01: dates, durations and business days."""
from gen import *
from gen import _ops
import datetime as _d
U = _ops.DTU
KEYD = [(1970, 1, 1), (1969, 12, 31), (2000, 2, 29), (2000, 3, 1), (1999, 12, 31), (1900, 2, 28), (1900, 3, 1), (2100, 2, 28),
        (2100, 3, 1), (2024, 2, 29), (2023, 2, 28), (1968, 2, 29), (1972, 12, 31), (2020, 1, 1), (1600, 2, 29), (1582, 10, 15), (2400, 2, 29), (1, 1, 1), (9999, 12, 31)]
PERDAY = {4: 1, 5: 24, 6: 1440, 7: 86400, 8: 86400000, 9: 86400 * 10**6, 10: 86400 * 10**9}

def day(R, wide=False):
    if R.random() < 0.4:
        y, m, d = R.choice(KEYD if wide else KEYD[:14])
    else:
        y, m, d = R.randint(1900, 2100), R.randint(1, 12), R.randint(1, 28)
    return (_d.date(y, m, d) - _d.date(1970, 1, 1)).days + R.choice([0, 0, -1, 1, R.randint(-400, 400)] if not wide else [0, 0])
def rest(R, u):
    """A time of day in unit u."""
    n = PERDAY[u]
    return R.choice([0, 0, 1, n - 1, n // 2, R.randrange(n), R.randrange(min(n, 86400)) * (n // 86400 or 1)]) % n
def date(R, u, wide=False):
    n = day(R, wide)
    if u == 10 and not -100000 < n < 100000:
        n %= 40000
    c = _d.date(1970, 1, 1) + _d.timedelta(days=n) if -719162 <= n <= 2932896 else _d.date(2000, 1, 1)
    if u == 1:
        return c.year - 1970
    if u == 2:
        return (c.year - 1970) * 12 + c.month - 1
    if u == 3:
        return n // 7
    return n * PERDAY[u] + rest(R, u)
def delta(R, u, small=False):
    r = R.random()
    if small or r < 0.4:
        return R.randint(-9, 9)
    if r < 0.7:
        return R.choice([-1, 1]) * R.choice([11, 12, 13, 23, 24, 25, 30, 31, 59, 60, 61, 365, 366, 999, 1000, 1001, 3600, 86400, 86399])
    return R.randint(-100000, 100000)
def dval(R, kind, u, nat=0.1, small=False, wide=False):
    if R.random() < nat:
        return [0, 0]
    return enc_int(date(R, u, wide) if kind == "M" else delta(R, u, small))
def name(kind, u):
    return ("datetime64[%s]" if kind == "M" else "timedelta64[%s]") % U[u]
def darr(P, R, kind, u, s, nat=0.1, small=False, wide=False):
    n = prod(s)
    v = [dval(R, kind, u, nat, small, wide) for _ in range(n)]
    if n > 1 and R.random() < 0.3:
        v = [v[R.randrange(min(n, 3))] for _ in range(n)]
    return mk(P, R, s, name(kind, u), v)
def dshape(R):
    return R.choice([(), (1,), (2,), (3,), (4,), (5,), (2, 3), (3, 1), (2, 2), (0,), (2, 1, 2)])
def bcpair(R):
    return R.choice([((3,), (3,)), ((3,), (1,)), ((1,), (4,)), ((), (3,)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((2, 2), (2, 2)), ((3,), ()),
                     ((2,), (3,)), ((0,), (1,)), ((2, 1, 2), (3, 1)), ((), ())])
def unit(R, fine=10):
    return R.choice([1, 2, 3, 4, 4, 4, 5, 6, 7, 7, 8, 9, 10][:13 if fine == 10 else fine])
BIN = ["add", "add", "subtract", "subtract", "maximum", "minimum", "fmax", "fmin", "divide", "floor_divide", "remainder"]
CMP = ["less", "less_equal", "greater", "greater_equal", "equal", "not_equal"]

@prop("D01", 5)
def dtbinary(R, i):
    P = Prog("dtbinary")
    s, t = bcpair(R)
    f = R.choice(BIN)
    ka, kb = R.choice(["MM", "Mm", "mM", "mm", "mm"]) if f not in ("divide", "floor_divide", "remainder") or R.random() < 0.1 else "mm"
    ua = unit(R)
    ub = ua if R.random() < 0.4 else unit(R)
    sm = f in ("divide", "floor_divide", "remainder")
    if f == "divide":           # quotients with small denominators
        ub = min(10, max(1, ua + R.choice([0, 0, 1, -1])))
    x = darr(P, R, ka, ua, s, small=sm)
    y = x if s == t and ka == kb and ua == ub and R.random() < 0.1 else darr(P, R, kb, ub, t, small=sm)
    P.add("dtbin", [x, y], f=f, sy=R.randint(0, 1) if f in _ops.DTSYM else 0)
    return P.done()
@prop("D01", 2)
def dtwithnum(R, i):
    P = Prog("dtwithnum")
    s, t = bcpair(R)
    f = R.choice(["add", "subtract", "multiply", "multiply", "divide", "floor_divide"])
    k, u = R.choice("Mmm"), unit(R)
    x = darr(P, R, k, u, s)
    if f in ("multiply", "divide", "floor_divide") and R.random() < 0.4:
        y = mk(P, R, t, "float64", [R.choice([[1, 2], [3, 2], [-1, 4], [2, 1], [0, 1], [1, 1], [0, 0], [1, 0], [-5, 2]]) for _ in range(prod(t))])
        a = [x, y]
        if f == "multiply" and R.random() < 0.4:
            a = [y, x]
    else:
        y = mk(P, R, t, R.choice(["int64", "int64", "int32", "int8", "uint8"]), [smallint(R, "uint8", 0, 7) if R.random() < 0.4 else [R.randint(0, 9), 1] for _ in range(prod(t))])
        a = [x, y] if R.random() < 0.6 else [y, x]
    P.add("dtbin", a, f=f, sy=R.randint(0, 1))
    return P.done()
@prop("D01", 4)
def dtcompare(R, i):
    P = Prog("dtcompare")
    s, t = bcpair(R)
    ka, kb = R.choice(["MM", "MM", "MM", "mm", "mm", "Mm"])
    ua = unit(R)
    ub = ua if R.random() < 0.4 else unit(R)
    if R.random() < 0.5:        # the same moments in another unit, and neighbours
        x = darr(P, R, ka, ua, s)
        A = P.sh[x - 1]
        try:
            B = A.astype(name(ka, ub)).astype("int64").reshape(-1).tolist()
            v = [[0, 0] if n == -2**63 else enc_int(n + R.choice([0, 0, 0, 1, -1])) for n in B]
            assert all(abs(n) < 2**60 for n in B if n != -2**63)
            y = mk(P, R, s, name(ka, ub), v)
        except Exception:
            y = darr(P, R, kb, ub, t)
    else:
        x = darr(P, R, ka, ua, s)
        y = darr(P, R, kb, ub, t)
    a = [x, y] if R.random() < 0.5 else [y, x]
    for f in R.sample(CMP, 2):
        P.add("dtcmp", a, f=f, sy=R.randint(0, 1))
    return P.done()
@prop("D01", 4)
def dtunary(R, i):
    P = Prog("dtunary")
    k, u = R.choice("MMm"), unit(R)
    s = dshape(R)
    x = darr(P, R, k, u, s, nat=0.2, wide=R.random() < 0.3 and u < 8)
    r = R.random()
    if r < 0.3:
        P.add("dtun", [x], f=R.choice(["isnat", "isnan", "isfinite", "negative", "absolute", "sign", "isnat"]))
    elif r < 0.75:
        w = unit(R)
        if not (u <= 4 and w == 10):
            y = P.add("dtcast", [x], u=w)
            if R.random() < 0.3 and not (k == "m" and max(u, w) > 2 and min(u, w) <= 2):
                P.add("dtcast", [y], u=u)
    else:
        P.add("dtstr", [x], u=R.choice([0, 0] + list(range(1, 10)) + ([10] if u == 10 else [])))
    return P.done()
def c(t):
    return [ord(ch) for ch in t]
def datetext(R):
    r = R.random()
    y, m, d = R.choice(KEYD) if R.random() < 0.5 else (R.randint(1900, 2100), R.randint(1, 12), R.randint(1, 28))
    if r < 0.12:
        y, m, d = R.choice([(2023, 2, 29), (1900, 2, 29), (2100, 2, 29), (2024, 2, 30), (2024, 4, 31), (2024, 13, 1), (2024, 0, 1), (2024, 1, 0), (2024, 1, 32), (2024, 6, 31)])
    k = R.choice([1, 2, 3, 3, 3, 4, 5, 6, 7, 7])
    t = "%04d" % y
    if k >= 2:
        t += "-%02d" % m
    if k >= 3:
        t += "-%02d" % d
    if k >= 4:
        hh, mm, ss = R.choice([0, 23, 12, R.randint(0, 23)]), R.choice([0, 59, R.randint(0, 59)]), R.choice([0, 59, R.randint(0, 59)])
        if R.random() < 0.06:
            hh, mm, ss = R.choice([(24, 0, 0), (0, 60, 0), (0, 0, 60)])
        t += R.choice("TTT ") + "%02d" % hh
        if k >= 5:
            t += ":%02d" % mm
        if k >= 6:
            t += ":%02d" % ss
        if k >= 7:
            t += "." + "".join(R.choice("0123456789") for _ in range(R.choice([1, 2, 3, 6, 9])))
    return t
@prop("D01", 3)
def dtparse(R, i):
    P = Prog("dtparse")
    n = R.randint(1, 4)
    q = []
    for _ in range(n):
        r = R.random()
        if r < 0.08:
            t = R.choice(["NaT", "nat", "", "NAT"])
        elif r < 0.14:
            t = R.choice(["abc", "2020-1-1", "2020/01/01", "2020-01-01T", "2020-01-01Tx", "2020-01-01-01", "2020-01T10", "--", "2020-", "12:30"])
        else:
            t = datetext(R)
        q.append(t)
    u = unit(R)
    if u == 10 and any(t[:4].isdigit() and not 1700 < int(t[:4]) < 2200 for t in q):
        u = 9
    h = P.add("dtparse", [], q=[c(t) for t in q], u=u)
    return P.done()
@prop("D01", 3)
def dtstruct(R, i):
    """Reductions, differences, order and concatenation."""
    P = Prog("dtstruct")
    k, u = R.choice("MMm"), unit(R)
    s = R.choice([(1,), (2,), (4,), (6,), (2, 3), (3, 2), (3, 1), (2, 2, 2), (1, 4)])
    x = darr(P, R, k, u, s, nat=R.choice([0, 0.1, 0.4]))
    ax = R.randint(-len(s), len(s) - 1)
    r = R.random()
    if r < 0.3:
        P.add("dtfold", [x], f=R.choice(["maximum", "minimum"]), axis=ax) if len(s) > 1 else P.add("dtsort", [x], axis=0, arg=0)
    elif r < 0.6:
        P.run("dtdiff", [x], axis=ax, n=R.choice([1, 1, 1, 2, 0, 3]) if k == "M" else R.choice([1, 1, 2]))
    elif r < 0.85:
        P.add("dtsort", [x], axis=ax, arg=R.randint(0, 1))
    else:
        a = darr(P, R, k, u, (R.randint(0, 3),))
        w = R.choice([u] + [z for z in range(1, 11) if (z <= 2) == (u <= 2) or k == "M"])
        b = darr(P, R, k, w, (R.randint(1, 3),))
        P.add("dtcat", [a, b])
    return P.done()
NAMES = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
def mask(R):
    r = R.random()
    if r < 0.3:
        return "1111100"
    if r < 0.65:
        m = [R.randint(0, 1) for _ in range(7)]
        if not any(m) and R.random() < 0.8:
            m[R.randrange(7)] = 1
        return "".join(map(str, m))
    if r < 0.92:
        k = R.sample(NAMES, R.randint(1, 5))
        k = [R.choice([z, z, z.lower(), z.upper()]) if R.random() < 0.3 else z for z in k]
        return R.choice(["", " ", "  "]).join(k)
    return R.choice(["", "11111", "1111102", "MonTu", "xxx", "0000000", "Monday", "Mon,Tue", "11111000"])
def hols(R, near):
    out = []
    for _ in range(R.choice([0, 0, 1, 2, 3, 5])):
        n = near + R.randint(-12, 12)
        out.append((_d.date(1970, 1, 1) + _d.timedelta(days=n)).isoformat())
    if out and R.random() < 0.2:
        out.append(R.choice(out))
    if R.random() < 0.05:
        out.append("NaT")
    if R.random() < 0.04:
        out.append(R.choice(["2020-02-30", "x", "2020-13-01"]))
    return out
@prop("D01", 6)
def business(R, i):
    P = Prog("business")
    f = R.choice(["is", "offset", "offset", "offset", "count", "count", "count", "holidays", "mask"])
    form = R.choice(["arr", "arr", "arr", "list", "str"])
    near = day(R)
    near = R.choice([near, near, 0, -1, 11016])
    m, hol = mask(R), hols(R, near)
    nocal = R.random() < 0.15
    if nocal:
        m, hol = "1111100", []
    kw = dict(f=f, form=form, mask=c(m), hol=[c(t) for t in hol], nocal=int(nocal))
    if f in ("holidays", "mask"):
        kw["form"] = "arr"
        kw["nocal"] = 0
        P.add("biz", [], **kw)
        return P.done()
    s, t = bcpair(R)
    if f == "is":
        s = dshape(R)
    if form == "str":
        s = t = ()
    if form == "list":
        s, t = (R.randint(1, 4),), (1,)
        if R.random() < 0.7:
            t = s
    u = 4 if form != "arr" or R.random() < 0.7 else R.choice([1, 2, 3, 4, 5, 7])
    bad = R.random() < 0.04 and form == "arr"
    def dates(s, w=20):
        def one():
            if R.random() < 0.04:
                return [0, 0]
            n = near + R.randint(-w, w)
            cc = _d.date(1970, 1, 1) + _d.timedelta(days=n)
            v = {1: cc.year - 1970, 2: (cc.year - 1970) * 12 + cc.month - 1, 3: n // 7, 4: n}.get(u, n * PERDAY.get(u, 1))
            return enc_int(v)
        return mk(P, R, s, name("m" if bad else "M", u), [one() for _ in range(prod(s))])
    x = dates(s)
    if f == "is":
        P.add("biz", [x], **kw)
    elif f == "count":
        y = dates(t, 30)
        P.add("biz", [x, y], **kw)
    else:
        y = mk(P, R, t, R.choice(["int64", "int64", "int32", "int8"]) if R.random() < 0.95 or form != "arr" else "float64",
               [[R.choice([0, 0, 1, -1, 2, -2, 5, -5, 6, 7, R.randint(-25, 25)]), 1] for _ in range(prod(t))])
        P.add("biz", [x, y], **kw)
    return P.done()
