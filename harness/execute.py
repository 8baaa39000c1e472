"""Executes programs of public rumpy calls and records traces.

usage: execute.py PROGRAMS.ndjson START OUT
Each program: {"id":..., "ev":[{"op","a","p"}...]}.  One line per completed event is
written to OUT so that a crash of the process loses nothing that happened before it.
"""
import sys, os, json, hashlib, math
os.environ.setdefault("RUST_BACKTRACE", "0")
import numpy as np
import warnings
warnings.simplefilter("ignore")
from enc import enc, dec, enc_int, SZ
from ops import OPS, Py, Multi

def np_obs(a, k):
    dt = str(a.dtype)
    if dt.startswith(("datetime64", "timedelta64")):
        iv = a.view("int64")
        v = [[0, 0] if int(x) == -2**63 else enc_int(int(x)) for x in iv.reshape(-1).tolist()]
    elif a.dtype.kind == "U":
        v = [[ord(c) for c in x] for x in a.reshape(-1).tolist()]
        dt = "str"
    else:
        v = [enc(x, dt) for x in a.reshape(-1).tolist()]
    return {"k": k, "s": list(a.shape), "d": dt, "v": v}

def py_obs(x):
    """Observation of a nested list: its shape and elements in order."""
    if not isinstance(x, (list, tuple)):
        return {"k": "s", "s": [], "d": "py", "v": [enc(x, "py")]}
    s, v = [], x
    while isinstance(v, (list, tuple)):
        s.append(len(v))
        if not v:
            break
        v = v[0]
    out = []
    def go(y, k):
        if isinstance(y, (list, tuple)):
            if k >= len(s) or len(y) != s[k]:
                out.append([0, 0, 5])       # ragged: never equal to a model value
                return
            for z in y:
                go(z, k + 1)
        else:
            if hasattr(y, "dtype"):
                y = np.asarray(y).item()
            out.append(enc(y, "py"))
    go(x, 0)
    return {"k": "a", "s": s, "d": "py", "v": out}

APD = {"float64": 8, "py": 8, "complex128": 8, "float32": 256, "complex64": 256, "float16": 16384}
def approx(o, x):
    """Fixed-point image of the floats of an observed value: e = exponent of the largest,
    q = values scaled by 2^(20-e); c = dtype class, 0 where equality is exact."""
    d = o["d"] if o["d"] in APD else "py" if o["d"] in ("float", "complex") else ""
    if not d or o["d"] == "py" and o["k"] == "a":
        return {"s": o["s"], "d": o["d"], "t": 0, "e": 0, "q": o["v"]}
    a = np.atleast_1d(np.asarray(x)).reshape(-1)
    a = a.astype("complex128") if a.dtype.kind == "c" else a.astype("float64")
    if a.dtype.kind == "c":
        a = a.view("float64")
    fin = np.abs(a[np.isfinite(a)])
    e = max([1] + [math.frexp(z)[1] for z in fin.tolist()])
    q = [9000000 if z != z else (8000000 if z > 0 else -8000000) if math.isinf(z) else int(round(math.ldexp(z, 20 - e))) for z in a.tolist()]
    return {"s": o["s"], "d": o["d"], "t": APD[d], "e": e, "q": q}

class Machine:
    def __init__(self, m, nd):
        self.m, self.nd = m, nd
        self.H = []        # results of the program, in order
        self.last = []     # fingerprint of the last observation of each
        self.keep = []
        self.ctx = {}      # files, generators, scratch directory
    def is_arr(self, x):
        return isinstance(x, self.nd)
    def fingerprint(self, x):
        if isinstance(x, (Py, np.ndarray)) and not self.is_arr(x):
            return ("fixed",)
        if self.is_arr(x):
            a = np.asarray(x)
            return ("a", a.shape, str(a.dtype), a.tobytes())
        return ("s", type(x).__name__, repr(x))
    def observe(self, x):
        if self.is_arr(x):
            return np_obs(np.array(np.asarray(x)), "a")
        if isinstance(x, np.ndarray):
            return np_obs(x, "a")
        if isinstance(x, Py):
            return py_obs(x.x)
        if isinstance(x, (np.generic,)):
            x = x.item()
        if x is None:
            return {"k": "s", "s": [], "d": "none", "v": [[0, 0, 0]]}
        if isinstance(x, (bool, int, float, complex, str, bytes)):
            return {"k": "s", "s": [], "d": type(x).__name__, "v": [enc(x, self.scdt)]}
        return {"k": "s", "s": [], "d": type(x).__name__, "v": [[0, 0, 0]]}
    def step(self, e):
        err = ""
        res = []
        # scalars computed from low-precision operands carry their rounding
        self.scdt = "py"
        if e["a"] and self.is_arr(self.H[e["a"][0] - 1]):
            d = str(self.H[e["a"][0] - 1].dtype)
            if d in ("float32", "float16"):
                self.scdt = d
        try:
            r = OPS[e["op"]](self, [self.H[i - 1] for i in e["a"]], e["p"])
            if r is None:
                res = []
            elif isinstance(r, Multi):
                res = list(r.xs)
            elif isinstance(r, (tuple, list)):
                res = list(r)
            else:
                res = [r]
        except KeyError as z:
            if e["op"] not in OPS:
                raise
            err = type(z).__name__
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as z:
            err = type(z).__name__
            self.msg = str(z)[:200]
        obs = []
        for x in res:
            self.H.append(x)
            self.last.append(None)
        for i, x in enumerate(self.H):
            try:
                f = self.fingerprint(x)
                if f != self.last[i]:
                    self.last[i] = f
                    obs.append({"i": i + 1, **self.observe(x)})
            except BaseException as z:
                if isinstance(z, (KeyboardInterrupt, SystemExit)):
                    raise
                obs.append({"i": i + 1, "k": "s", "s": [], "d": "unreadable", "v": [[0, 0, 1]]})
        out = dict(e)
        if e["op"] == "call":
            nres = len(res)
            out["ap"] = [approx(o, self.H[o["i"] - 1].x if isinstance(self.H[o["i"] - 1], Py) else self.H[o["i"] - 1]) for o in obs if o["i"] > len(self.H) - nres]
        out.update(err=err, obs=obs, n=len(self.H))
        return out

def load(backend):
    if backend == "np":
        return np, np.ndarray
    import rumpy
    return rumpy, rumpy.ndarray

def main():
    progs, start, outp = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    backend = os.environ.get("VBACKEND", "rp")
    m, nd = load(backend)
    out = open(outp, "a", buffering=1 << 16)
    with open(progs) as f:
        for k, line in enumerate(f):
            if k < start:
                continue
            prog = json.loads(line)
            out.write("B %d\n" % k)
            out.flush()
            M = Machine(m, nd)
            SZ[0] = prog.get("sz", 0)
            try:
                for e in prog["ev"]:
                    t = M.step(e)
                    out.write("E " + json.dumps(t) + "\n")
                    out.flush()
                    if len(M.H) != t["n"]:
                        break
            except (IndexError, KeyError):   # refers to a result that was never produced
                pass
            out.write("D\n")
    out.flush()
    os._exit(0)

if __name__ == "__main__":
    main()
