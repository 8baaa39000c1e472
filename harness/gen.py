"""Program generation: building blocks shared by all properties."""
import random, itertools
import numpy as np
import warnings
warnings.simplefilter("ignore")
from enc import enc, enc_int, dec
import ops as _ops
from ops import OPS, Py, Multi

FL = ["float64", "float32", "float16"]
SI = ["int64", "int32", "int16", "int8"]
UI = ["uint8", "uint16", "uint32", "uint64"]
INTS = SI + UI
CX = ["complex128", "complex64"]
REAL = FL + INTS
ALL = FL + INTS + ["bool"] + CX
LO = {"int8": -2**7, "int16": -2**15, "int32": -2**31, "int64": -2**63, "uint8": 0, "uint16": 0, "uint32": 0, "uint64": 0}
HI = {"int8": 2**7 - 1, "int16": 2**15 - 1, "int32": 2**31 - 1, "int64": 2**63 - 1,
      "uint8": 2**8 - 1, "uint16": 2**16 - 1, "uint32": 2**32 - 1, "uint64": 2**64 - 1}

def fullint(k, n):
    """x[key] with a tuple of ndim integers is a scalar access."""
    m = sum(1 for it in k if it[0] == 0)
    if any(it[0] in (1, 2) for it in k):
        return False
    return m == n

class NpMachine:
    m, nd = np, np.ndarray
    def __init__(self):
        self.ctx = {}
NPM = NpMachine()

class Prog:
    """A program under construction.  `sh` holds numpy shadows of the results, used only
    to choose sensible parameters for later calls - never as an oracle."""
    def __init__(self, tag=""):
        self.ev = []
        self.sh = []
        self.tag = tag
        self.sz = 0
    def add(self, op, a=(), shadow=None, n=1, **p):
        """Append a call; `n` results are expected (shadow: list of their shadows)."""
        self.ev.append({"op": op, "a": list(a), "p": p})
        if shadow is None:
            shadow = [None] * n
        self.sh.extend(shadow)
        return len(self.sh)
    def run(self, op, a=(), **p):
        """Append a call and compute its shadow with numpy; returns handle indices ([] on error)."""
        self.ev.append({"op": op, "a": list(a), "p": p})
        try:
            r = OPS[op](NPM, [self.sh[i - 1] for i in a], p)
        except Exception:
            return []
        if r is None:
            return []
        r = r.xs if isinstance(r, Multi) else list(r) if isinstance(r, (tuple, list)) else [r]
        if op == "getitem" and not p["bare"] and isinstance(r[0], np.ndarray) and r[0].ndim == 0 and fullint(p["k"], self.sh[a[0] - 1].ndim):
            r = [r[0].item()]
        k = len(self.sh)
        self.sh.extend(r)
        return list(range(k + 1, len(self.sh) + 1))
    def arr(self, s, d, v, via=0):
        """v: encoded values."""
        if any(len(x) == 7 for x in v):
            via = 0         # Python lists of integers beyond int64 are outside the scope
        p = dict(s=list(s), d=d, v=v, via=via)
        self.ev.append({"op": "array", "a": [], "p": p})
        self.sh.append(_ops.nparr(p))
        return len(self.sh)
    def done(self):
        return {"tag": self.tag, "ev": self.ev, "sz": self.sz}

def prod(s):
    n = 1
    for x in s:
        n *= x
    return n

def small(R, d, lo=-5, hi=9):
    """A small value of dtype d, exactly representable."""
    if d == "bool":
        return [R.randint(0, 1), 1]
    if d in CX:
        return [R.randint(lo, hi), 1, R.randint(lo, hi), 1]
    n = R.randint(lo, hi)
    if d in UI:
        n = abs(n)
    if d in FL and R.random() < 0.3:
        k = R.choice([2, 4])
        if n % 2:
            return [n, k]
    return [n, 1]
def smallint(R, d, lo=-5, hi=9):
    if d == "bool":
        return [R.randint(0, 1), 1]
    if d in CX:
        return [R.randint(lo, hi), 1, R.randint(lo, hi), 1]
    n = R.randint(lo, hi)
    return [abs(n) if d in UI else n, 1]
def extreme(R, d):
    """Values at and around the limits of an integer dtype."""
    if d not in LO:
        return small(R, d)
    r = R.random()
    if r < 0.25:
        return enc_int(R.choice([LO[d], HI[d], LO[d] + 1, HI[d] - 1, 0, 1, LO[d] // 2, HI[d] // 2, HI[d] // 2 + 1]))
    if r < 0.5:
        return enc_int(R.randint(LO[d], HI[d]))
    if r < 0.7:
        b = R.randint(0, HI[d].bit_length() - 1)
        x = (1 << b) + R.randint(-1, 1)
        if LO[d] < 0 and R.random() < 0.5:
            x = -x
        return enc_int(min(HI[d], max(LO[d], x)))
    return smallint(R, d)
SPECIAL = [[0, 0], [1, 0], [-1, 0], [0, 1], [1, 1], [-1, 1], [1, 2], [-1, 2], [3, 2], [-5, 2], [2, 1], [-3, 1], [7, 1]]
def special(R, d):
    if d in FL:
        return list(R.choice(SPECIAL))
    return small(R, d)

def vals(R, n, d, f=small):
    return [f(R, d) for _ in range(n)]

SHAPES = {0: [()], 1: [(1,), (2,), (3,), (4,), (5,), (7,), (8,), (9,)],
          2: [(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3), (2, 5), (4, 4)],
          3: [(2, 3, 2), (1, 3, 2), (2, 1, 3), (2, 2, 3), (3, 2, 1), (2, 2, 2)],
          4: [(2, 1, 2, 3), (1, 2, 2, 2), (2, 2, 1, 2)]}
EMPTY = [(0,), (0, 3), (3, 0), (2, 0, 3), (0, 0), (1, 0)]
def shape(R, maxnd=4, mind=0, empty=0.06):
    if mind <= 2 and R.random() < empty:
        c = [s for s in EMPTY if mind <= len(s) <= maxnd]
        return R.choice(c)
    nd = R.choices([0, 1, 2, 3, 4], [1, 6, 8, 5, 2])[0]
    nd = min(max(nd, mind), maxnd)
    return R.choice(SHAPES[nd])

LONG = [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300]

LAYOUTS = ["c", "c", "F", "rev", "step", "off", "mix", "mix", "mix", "bc"]
def mk(P, R, s, d, v, layout=None):
    """Append calls that create an array with shape s and (encoded) contents v in a random
    memory layout; cells outside the view hold junk.  Returns the handle."""
    layout = layout or R.choice(LAYOUTS)
    n = len(s)
    if layout == "c" or n == 0:
        return P.arr(s, d, v, via=1 if R.random() < 0.2 else 0)
    if layout == "bc":
        # a broadcast axis is possible only when the contents repeat along it
        codes = {}
        A = np.array([codes.setdefault(tuple(x), len(codes)) for x in v], dtype=int).reshape(s)
        keys = list(codes)
        for ax in range(n):
            if s[ax] > 1 and A.size and (A == np.take(A, [0], ax)).all():
                B = np.take(A, [0], ax)
                h = P.arr(B.shape, d, [list(keys[x]) for x in B.reshape(-1)])
                return P.add("broadcast_to", [h], shadow=[np.broadcast_to(P.sh[h - 1], s)], s=list(s))
        layout = "mix"
    perm = list(range(n))
    step = [1] * n
    lead = [0] * n
    trail = [0] * n
    if layout == "F":
        perm = perm[::-1]
    if layout == "mix" and R.random() < 0.6:
        R.shuffle(perm)
    if layout in ("rev", "mix"):
        for i in range(n):
            if R.random() < (0.6 if layout == "rev" else 0.4):
                step[i] = -1
        if layout == "rev" and all(x == 1 for x in step):
            step[R.randrange(n)] = -1
    if layout in ("step", "mix"):
        for i in range(n):
            if R.random() < 0.5:
                step[i] *= R.choice([2, 3])
    if layout in ("off", "mix"):
        for i in range(n):
            lead[i] = R.choice([0, 0, 1, 2])
            trail[i] = R.choice([0, 0, 1])
    def extent(j):
        return lead[j] + (max(s[j], 1) - 1) * abs(step[j]) + (1 if s[j] else 0) + trail[j]
    while prod([extent(j) for j in range(n)]) > 60 + 4 * prod(s):
        j = max(range(n), key=lambda j: (extent(j) > s[j], extent(j) / max(1, s[j])))
        step[j] = 1 if step[j] > 0 else -1
        lead[j] = trail[j] = 0
    # axis j of the result is base axis perm[j]
    bs = [0] * n
    for j in range(n):
        ln = lead[j] + (max(s[j], 1) - 1) * abs(step[j]) + (1 if s[j] else 0) + trail[j]
        bs[perm[j]] = ln
    base = -np.ones(bs, dtype=int)
    key = [None] * n
    for j in range(n):
        if s[j] == 0:
            sl, k = slice(lead[j], lead[j], None), [1, 1, lead[j], 1, lead[j], 1]
        elif step[j] > 0:
            stop = lead[j] + (s[j] - 1) * step[j] + 1
            sl, k = slice(lead[j], stop, step[j]), [1, 1, lead[j], 1, stop, step[j]]
        else:
            start = lead[j] + (s[j] - 1) * -step[j]
            stop = lead[j] - 1
            if stop < 0:
                sl, k = slice(start, None, step[j]), [1, 1, start, 0, 0, step[j]]
            else:
                sl, k = slice(start, stop, step[j]), [1, 1, start, 1, stop, step[j]]
        key[perm[j]] = (sl, k)
    view = base[tuple(x[0] for x in key)].transpose(perm)
    assert view.shape == tuple(s), (view.shape, s)
    if len(v):
        view[...] = np.arange(len(v)).reshape(s)
    h = P.arr(bs, d, [v[x] if x >= 0 else junk(R, d) for x in base.reshape(-1).tolist()])
    sh = P.sh[h - 1]
    if any(x != 1 for x in step) or any(lead) or any(trail):
        sh = sh[tuple(x[0] for x in key)]
        h = P.add("getitem", [h], shadow=[sh], k=[x[1] for x in key], bare=0)
    if perm != list(range(n)):
        sh = sh.transpose(perm)
        if perm == list(range(n))[::-1]:
            h = P.add("T", [h], shadow=[sh])
        else:
            h = P.add("permute", [h], shadow=[sh], axes=perm)
    return h

def junk(R, d):
    if d == "bool":
        return [R.randint(0, 1), 1]
    if d in CX:
        return [R.randint(70, 99), 1, R.randint(70, 99), 1]
    if d == "str":
        return [ord("#")] * R.randint(0, 2)
    if d == "float16":
        return [R.randint(50, 60), 1]
    return [R.randint(70, 99), 1]

def randarr(P, R, d, s=None, f=small, layout=None, **kw):
    s = shape(R, **kw) if s is None else s
    layout = layout or R.choice(LAYOUTS)
    c = [i for i in range(len(s)) if s[i] > 1]
    if layout == "bc" and c:
        t = list(s)
        ax = R.choice(c)
        t[ax] = 1
        h = mk(P, R, t, d, vals(R, prod(t), d, f), R.choice(["c", "mix"]))
        return P.add("broadcast_to", [h], shadow=[np.broadcast_to(P.sh[h - 1], s)], s=list(s))
    return mk(P, R, s, d, vals(R, prod(s), d, f), layout)

# ---------------------------------------------------------------- registry
GEN = {}          # property -> list of (weight, generator(R, i) -> program)
def prop(pid, weight=1.0):
    def reg(f):
        GEN.setdefault(pid, []).append((weight, f))
        return f
    return reg
EXH = {}          # property -> list of generators of systematically enumerated programs
def exhaustive(pid):
    def reg(f):
        EXH.setdefault(pid, []).append(f)
        return f
    return reg
