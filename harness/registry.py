"""Which generators decide which property, and how many programs per tier."""
import random, zlib
from gen import GEN, EXH
import gen_views, gen_elem, gen_reduce, gen_sort, gen_rearr, gen_contract, gen_opaque, gen_convert, gen_grid, gen_linalg, gen_stats, gen_io, gen_rand, gen_date, gen_text, gen_err, gen_print

MC = "model_checking"
NA = {}
NOTE = ("Bounded: TLC decides every recorded call of the generated programs against the specification; "
        "model-level theorems are exhaustive within the bounds of the MC*.tla configurations.")
CONF = {
 "V01": dict(level=MC, n=(7000, 30000)),
 "V02": dict(level=MC, n=(7000, 30000)),
 "B01": dict(level=MC, n=(9000, 40000)),
 "P01": dict(level=MC, n=(0, 0)),
 "I01": dict(level=MC, n=(9000, 40000)),
 "N01": dict(level=MC, n=(10000, 50000)),
 "R01": dict(level=MC, n=(10000, 50000)),
 "R02": dict(level=MC, n=(9000, 40000)),
 "R03": dict(level=MC, n=(9000, 40000)),
 "S01": dict(level=MC, n=(7000, 30000)),
 "J01": dict(level=MC, n=(9000, 40000)),
 "M01": dict(level=MC, n=(9000, 40000)),
 "G01": dict(level=MC, n=(9000, 40000)),
 "K01": dict(level=MC, n=(9000, 40000)),
 "L01": dict(level=MC, n=(12000, 40000)),
 "V03": dict(level=MC, n=(9000, 40000)),
 "C01": dict(level=MC, n=(9000, 40000)),
 "X01": dict(level=MC, n=(9000, 40000)),
 "A01": dict(level=MC, n=(9000, 40000)),
 "Q01": dict(level=MC, n=(9000, 40000)),
 "O01": dict(level=MC, n=(9000, 40000)),
 "S02": dict(level=MC, n=(9000, 40000)),
 "D01": dict(level=MC, n=(12000, 100000)),
 "T01": dict(level=MC, n=(16000, 160000)),
 "E01": dict(level=MC, n=(10000, 100000)),
 "U01": dict(level=MC, n=(10000, 80000)),
 "F01": dict(level=MC, n=(4000, 30000)),
}
def programs(pid, tier, seed, n=None):
    c = CONF[pid]
    if n is None:
        n = c["n"][0 if tier == "quick" else 1]
    out, src = [], {}
    seen = set()
    def put(p, name, i):
        k = zlib.crc32(repr(p["ev"]).encode())
        if k in seen or not p["ev"]:
            return
        seen.add(k)
        p["id"] = "%s:%s:%d" % (pid, name, i)
        out.append(p)
        src[name] = src.get(name, 0) + 1
    for f in EXH.get(pid, []):
        R = random.Random("%s/%s/%d" % (pid, f.__name__, seed))
        for i, p in enumerate(f(R, tier)):
            put(p, f.__name__, i)
    gens = GEN.get(pid, [])
    tot = sum(w for w, _ in gens) or 1
    for w, f in gens:
        R = random.Random("%s/%s/%d" % (pid, f.__name__, seed))
        for i in range(int(n * w / tot)):
            put(f(R, i), f.__name__, i)
    return out, src

def coverage_gap(pid, traces):
    return None
