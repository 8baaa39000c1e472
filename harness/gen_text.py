"""T01: arrays of strings."""
from gen import *
SETS = ["ab", "aB ", "aabb", "abcABZ 019_-", "aé Éз中½1", "a1 \t\n", " \t\u00a0\u3000x", "АбΩω-_ é", "xyz", "+-012", "tT hH.iI", "\t\nab\r"]
def word(R, al=None, hi=9):
    al = al or R.choice(SETS)
    n = R.choice([0, 1, 1, 2, 3, 4, 5, R.randint(0, hi)])
    return "".join(R.choice(al) for _ in range(n))
def c(t):
    return [ord(ch) for ch in t]
def tshape(R):
    return R.choice([(), (1,), (2,), (3,), (4,), (5,), (2, 3), (3, 1), (2, 2), (0,), (2, 0), (2, 1, 2)])
def words(P, R, s, al=None):
    n = prod(s)
    v = [c(word(R, al, R.choice([4, 9, 20]))) for _ in range(n)]
    return mk(P, R, s, "str", v)
PAIRS = [((3,), (3,)), ((3,), (1,)), ((1,), (4,)), ((), (3,)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((2, 2), (2, 2)), ((3,), ()),
         ((2,), (3,)), ((0,), (1,)), ((2, 1, 2), (3, 1)), ((), ())]
REL = ["equal", "not_equal", "less", "less_equal", "greater", "greater_equal"]
def needle(R, P, h, al):
    """Something likely to occur in the strings of h."""
    r = R.random()
    if r < 0.1:
        return ""
    if r < 0.25:        # overlaps itself
        ch = R.choice(al)
        return R.choice([ch * 2, ch * 2, ch * 3, ch + R.choice(al) + ch])
    if r < 0.6:
        q = [x for x in P.sh[h - 1].reshape(-1).tolist() if x]
        if q:
            w = R.choice(q)
            i = R.randrange(len(w))
            return w[i:i + R.choice([1, 1, 2, 3])]
    return word(R, al, 3)
@prop("T01", 3)
def txunary(R, i):
    P = Prog("txunary")
    h = words(P, R, tshape(R))
    for _ in range(2):
        if R.random() < 0.45:
            P.add("txun", [h], f=R.choice(["upper", "lower", "swapcase", "capitalize", "title"]))
        elif R.random() < 0.15:
            P.add("txlen", [h])
        else:
            P.add("txis", [h], f=R.choice(["isalpha", "isdigit", "isdecimal", "isnumeric", "isalnum", "isspace", "isupper", "islower", "istitle"]))
    return P.done()
@prop("T01", 1)
def txclassed(R, i):
    """Strings made so that a predicate is often true."""
    P = Prog("txclassed")
    f = R.choice(["isalpha", "isdigit", "isdecimal", "isnumeric", "isalnum", "isspace", "isupper", "islower", "istitle"])
    al = dict(isalpha="aZéΩ中", isdigit="019", isdecimal="059", isnumeric="1½", isalnum="aZ0½é", isspace=" \t\n\u3000", isupper="AZÉ1 ", islower="azé1 ", istitle="Aa b")[f]
    s = R.choice([(3,), (4,), (2, 2)])
    v = []
    for _ in range(prod(s)):
        w = word(R, al)
        if f == "istitle":
            w = w.title()
        if R.random() < 0.25 and w:
            k = R.randrange(len(w) + 1)
            w = w[:k] + R.choice("aA1 _é") + w[k:]
        v.append(c(w))
    h = mk(P, R, s, "str", v)
    P.add("txis", [h], f=f)
    return P.done()
@prop("T01", 3)
def txbinary(R, i):
    P = Prog("txbinary")
    s, t = R.choice(PAIRS)
    al = R.choice(SETS)
    x, y = words(P, R, s, al), words(P, R, t, al)
    if s == t and R.random() < 0.5:     # equal strings and proper prefixes
        q = [list(z) for z in P.ev[-1]["p"].get("v", [])] if P.ev[-1]["op"] == "array" else []
        v = [c(w if R.random() < 0.5 else w[:-1]) for w in P.sh[x - 1].reshape(-1).tolist()]
        y = mk(P, R, s, "str", v)
    r = R.random()
    if r < 0.3:
        P.add("txbin", [x, y])
    elif r < 0.38:
        P.add("txsame", [x, y])
    else:
        P.add("txrel", [x, y], f=R.choice(REL), via=R.choice([0, 0, 1, 2]))
    return P.done()
@prop("T01", 5)
def txsearch(R, i):
    P = Prog("txsearch")
    al = R.choice(SETS + ["a", "aab", "aab", "ab"])
    h = words(P, R, tshape(R), al)
    for _ in range(2):
        a = [] if R.random() < 0.4 else [R.randint(-6, 6)]
        b = [] if R.random() < 0.6 else [R.randint(-6, 9)]
        if b and not a:
            a = [0]
        P.add("txfind", [h], f=R.choice(["find", "rfind", "count", "startswith", "endswith", "find", "rfind", "index", "rindex"]),
              q=c(needle(R, P, h, al)), lo=a, up=b)
    return P.done()
@prop("T01", 4)
def txedit(R, i):
    P = Prog("txedit")
    al = R.choice(SETS + ["a", "aab", "ab"])
    h = words(P, R, tshape(R), al)
    r = R.random()
    if r < 0.35:
        P.add("txreplace", [h], q=c(needle(R, P, h, al)), r=c(word(R, al, 3)), cnt=R.choice([[], [], [0], [1], [2], [5]]))
    elif r < 0.55:
        P.add("txpart", [h], f=R.choice(["partition", "rpartition"]), q=c(needle(R, P, h, al)))
    elif r < 0.75:
        has = R.randint(0, 1)
        P.add("txstrip", [h], f=R.choice(["strip", "lstrip", "rstrip"]), has=has, q=c("".join(R.choice(al) for _ in range(R.randint(0, 3)))) if has else [])
    elif r < 0.85:
        P.add("txjoin", [h], q=c(R.choice(["", "-", ", ", "é"])))
    else:
        P.add("txmul", [h], w=R.choice([0, 1, 2, 3]))
    return P.done()
@prop("T01", 3)
def txlayout(R, i):
    P = Prog("txlayout")
    r = R.random()
    al = R.choice(SETS) if r < 0.75 else R.choice(["\tab", "a\t\n", "ab\r\t\n", "\té\r"])
    h = words(P, R, tshape(R), al)
    if r < 0.55:
        P.add("txpad", [h], f=R.choice(["center", "center", "ljust", "rjust"]), w=R.randint(0, 12), q=R.choice([[32], [32], [42], [233], c("*"), c("ab") if R.random() < 0.3 else [95]]))
    elif r < 0.75:
        P.add("txzfill", [h], w=R.randint(0, 10))
    else:
        P.add("txtabs", [h], w=R.choice([8, 8, 4, 1, 0, 3]))
    return P.done()
@prop("T01", 1)
def txwrong(R, i):
    """Operands that are not strings."""
    P = Prog("txwrong")
    h = P.arr((2,), R.choice(["int64", "float64", "bool"]), [[1, 1], [0, 1]])
    t = P.arr((2,), "str", [c("a"), c("b")])
    r = R.random()
    if r < 0.4:
        P.add("txrel" if R.random() < 0.7 else "txbin", R.choice([[h, t], [t, h], [h, h]]), f=R.choice(REL))
    elif r < 0.6:
        P.add("txun", [h], f=R.choice(["upper", "title", "capitalize", "swapcase"]))
    elif r < 0.8:
        P.add("txis", [h], f=R.choice(["isalpha", "istitle", "isspace"]))
    else:
        P.add("txfind", [h], f=R.choice(["find", "count", "startswith"]), q=c("a"), lo=R.choice([[], [1]]), up=[])
    return P.done()
@prop("T01", 2)
def txviews(R, i):
    """String arrays in memory: views, copies and writes by the moving functions keep whole strings."""
    P = Prog("txviews")
    h = words(P, R, R.choice([(3,), (2, 3), (3, 2)]))
    n = P.sh[h - 1].ndim
    for _ in range(2):
        r = R.random()
        if r < 0.4:
            k = P.run("T", [h])
        elif r < 0.7:
            k = P.run("flip", [h], axes=[0])
        else:
            k = P.run("copy", [h], fn=0)
        if k:
            h = k[0]
    P.add("txun", [h], f=R.choice(["upper", "capitalize", "title"]))
    return P.done()
