"""O01: files."""
from gen import *
from gen import _ops

def c(s):
    return [ord(x) for x in s]
def fmf(c_="", k=-1, w=0, plus=0, minus=0, blank=0, zero=0, pre="", suf=""):
    return dict(pre=c(pre), plus=plus, minus=minus, blank=blank, zero=zero, w=w, k=k, c=c_, suf=c(suf))
NOFM = fmf()

def content(P, R, d=None, **kw):
    d = d or R.choice(ALL)
    s = shape(R, empty=0.15, **kw)
    f = R.choice([small, small, extreme]) if d in INTS else small
    if d in FL and R.random() < 0.3:
        f = special
    return mk(P, R, s, d, vals(R, prod(s), d, f))

def names(R, k):
    pool = ["a", "b", "x1", "first", "weights", "z_z", "x.npy", "long_name_number_one"]
    return [c(n) for n in R.sample(pool, k)]

KINDS = ["magic", "version", "letters", "huge", "wide", "negative", "longer", "dtype", "nokey", "order", "noparen", "empty", "utf8", "hlen"]

@prop("O01", 5)
def containers(R, i):
    """Histories of saving, loading, overwriting, truncating and damaging .npy/.npz files."""
    P = Prog("containers")
    F = {}                          # (file, npz) -> (arrays, damaged)
    hs = [content(P, R) for _ in range(R.randint(1, 3))]
    for _ in range(R.randint(2, 9)):
        r = R.random()
        f, z = R.randint(0, 2), R.randint(0, 1)
        fid = f + 3 * z
        if r < 0.35 or not F:
            by = R.choice(["rp", "rp", "np"])
            if R.random() < 0.05:
                P.add("fsave", [hs[0]], n=0, file=-1, npz=0, by="rp", order="C", swap=0, comp=0, names=[])
                continue
            swap = 1 if by == "np" and R.random() < 0.3 else 0
            if z:
                k = R.randint(1, 3)
                ar = [R.choice(hs) for _ in range(k)]
                nm = names(R, R.randint(0, k))
                P.add("fsave", ar, n=0, file=fid, npz=1, by=by, order=R.choice("CF"), swap=swap, comp=R.randint(0, 1), names=nm)
            else:
                ar = [R.choice(hs)]
                P.add("fsave", ar, n=0, file=fid, npz=0, by=by, order=R.choice("CF"), swap=swap, comp=0, names=[])
            if z and by == "np" and nm:
                ar = ar[-len(nm):] + ar[:-len(nm)]
            F[fid] = [ar, False]
        elif r < 0.75:
            if R.random() < 0.9:
                fid = R.choice(list(F))
            z = int(fid >= 3)
            ok = fid in F and not F[fid][1]
            by = R.choice(["rp", "rp", "rp", "np"]) if ok else "rp"
            n = 0 if not ok else len(F[fid][0]) + z
            sh = None
            if ok:
                sh = [P.sh[h - 1] for h in F[fid][0]] + [None] * z
            P.add("fload", [], shadow=sh, n=n, file=fid, npz=z, by=by)
            if ok and by == "rp":
                k = len(P.sh)
                hs.append(k - z - R.randrange(len(F[fid][0])))
        elif r < 0.8 and not z and f in F and not F[f][1]:
            P.add("finfo", [], n=1, file=f, npz=0)
        elif r < 0.88:
            if fid in F:
                P.add("ftrunc", [], n=0, file=fid, npz=z, cut=R.choice([1, 1, 2, 8, 30, 60, 100, 130, 10 ** 6, R.randint(1, 200)]))
                F[fid][1] = True
        elif r < 0.96:
            if fid in F and not F[fid][1]:
                kind = R.choice(KINDS)
                A = P.sh[F[fid][0][0] - 1]
                if not z and (kind in ("huge", "wide", "longer") and A.size == 0 or kind in ("letters", "longer") and A.ndim == 0):
                    kind = "magic"
                P.add("fdamage", [], n=0, file=fid, npz=z, kind=kind, m=R.randint(0, 40), pos=R.randint(0, 999))
                F[fid][1] = True
        elif fid in F:
            P.add("fremove", [], n=0, file=fid, npz=z)
            del F[fid]
        # write to a loaded array: the file keeps its contents
        if R.random() < 0.15:
            h = R.choice(hs)
            A = P.sh[h - 1]
            d = str(A.dtype) if A is not None else ""
            if isinstance(A, np.ndarray) and A.flags.writeable and d in ALL and d not in CX and A.ndim:
                P.add("fill", [h], n=0, v=smallint(R, d, 0, 9), d=d)
    return P.done()

@exhaustive("O01")
def every_cut(R, tier):
    """Every dtype x shape x layout survives a round trip; loss of any number of trailing bytes is noticed."""
    for d in ALL:
        for s in [(), (1,), (3,), (2, 3), (2, 1, 3), (0,), (2, 0), (0, 3, 2)]:
            for lay in ["c", "F", "rev", "mix"]:
                P = Prog("cut")
                h = mk(P, R, s, d, vals(R, prod(s), d), lay)
                by = R.choice(["rp", "np"])
                P.add("fsave", [h], n=0, file=0, npz=0, by="rp", order="C", swap=0, comp=0, names=[])
                P.add("finfo", [], n=1, file=0, npz=0)
                P.add("fload", [], n=1, file=0, npz=0, by=by)
                P.add("fsave", [h], n=0, file=1, npz=0, by="np", order=R.choice("CF"), swap=R.randint(0, 1), comp=0, names=[])
                P.add("fload", [], n=1, file=1, npz=0, by="rp")
                P.add("ftrunc", [], n=0, file=R.randint(0, 1), npz=0, cut=R.choice([1, 2, 4, 8, 16, 40, 64, 100, 128]))
                P.add("fload", [], n=1, file=0, npz=0, by="rp")
                yield P.done()
    for kind in KINDS:
        for m in range(6):
            P = Prog("damage")
            h = mk(P, R, (2, 3), "float64", vals(R, 6, "float64"), "c")
            P.add("fsave", [h], n=0, file=0, npz=0, by="rp", order="C", swap=0, comp=0, names=[])
            P.add("fdamage", [], n=0, file=0, npz=0, kind=kind, m=m, pos=0)
            P.add("fload", [], n=0, file=0, npz=0, by="rp")
            yield P.done()
    for comp in (0, 1):
        for pos in range(0, 1000, 40 if tier == "quick" else 5):
            P = Prog("zipdamage")
            h = mk(P, R, (2, 3), "int32", vals(R, 6, "int32"), "c")
            g = mk(P, R, (4,), "float32", vals(R, 4, "float32"), "c")
            P.add("fsave", [h, g], n=0, file=3, npz=1, by="rp", order="C", swap=0, comp=comp, names=[])
            P.add("fdamage", [], n=0, file=3, npz=1, kind="", m=R.randint(0, 40), pos=pos)
            P.add("fload", [], n=0, file=3, npz=1, by="rp")
            yield P.done()

@prop("O01", 3)
def rawbytes(R, i):
    P = Prog("rawbytes")
    h = content(P, R)
    A = P.sh[h - 1]
    d = str(A.dtype)
    P.add("ftofile", [h], n=0, file=0, sep=[], fm=NOFM)
    nb = A.nbytes
    P.add("fread", [], n=1, file=0)
    for _ in range(R.randint(1, 3)):
        e = d if R.random() < 0.6 or d not in INTS else R.choice(INTS)
        it = np.dtype(e).itemsize
        off = R.choice([0, 0, it, 2 * it]) if e == d else R.randint(0, 3)
        P.add("ffromfile", [], n=1, file=0, d=e, count=R.choice([-1, -1, 0, 1, 2, 100]), sep=[], off=off)
    if R.random() < 0.3:
        P.add("ftrunc", [], n=0, file=0, cut=R.randint(1, 5))
        P.add("ffromfile", [], n=1, file=0, d=R.choice(INTS) if d in INTS else d, count=-1, sep=[], off=0)
    return P.done()

@prop("O01", 1)
def pickles(R, i):
    P = Prog("pickles")
    h = content(P, R)
    P.add("fdumps", [h], n=1, file=0, to=R.randint(0, 1))
    return P.done()

def tval(R, d):
    """Values whose text is exact."""
    if d in ("float64", "float32", "float16"):
        r = R.random()
        if r < 0.25:
            return [0, 1] if r < 0.05 else [R.choice([1, -1]) * R.choice([1, 3, 5, 7, 15, 25, 99, 125, 999, 1001, 2040 if d == "float16" else 12345]), 1]
        k = R.choice([1, 2, 4, 8, 16, 32, 64])
        n = R.randint(-400, 400)
        if d == "float16":
            k = min(k, 8)
        f = __import__("fractions").Fraction(n, k)
        if r > 0.93:
            return list(R.choice([[0, 0], [1, 0], [-1, 0]]))
        return [f.numerator, f.denominator]
    return R.choice([small, extreme])(R, d)
def ftxt(R, d):
    r = R.random()
    kw = {}
    if r < 0.25 and d not in CX:
        kw = dict(c_="d")
        if R.random() < 0.3:
            kw["k"] = R.randint(0, 6)
    elif r < 0.55:
        kw = dict(c_="e" if R.random() < 0.8 else "E", k=R.choice([-1, 0, 1, 2, 3, 6, 18, 18]))
    elif r < 0.8:
        kw = dict(c_="f", k=R.choice([-1, 0, 1, 2, 3, 4, 8]))
    else:
        kw = dict(c_=R.choice("gG"), k=R.choice([-1, 0, 1, 2, 3, 5, 10]))
    if R.random() < 0.4:
        kw["w"] = R.choice([1, 5, 8, 12, 30])
    for x in ("plus", "minus", "blank", "zero"):
        if R.random() < 0.12:
            kw[x] = 1
    if R.random() < 0.1:
        kw["pre"], kw["suf"] = R.choice([("x=", "y"), ("<", ">"), ("", " kg")])
    if kw.get("plus"):
        kw.pop("blank", None)
    if kw.get("minus"):
        kw.pop("zero", None)
    if kw["c_"] == "d" and "k" in kw:
        kw.pop("zero", None)
    return fmf(**kw)
EXACT = [fmf("e", 18), fmf("f", 8), fmf("e", 12), fmf("f", 10, 20), fmf("g", 17)]

@prop("O01", 4)
def texttables(R, i):
    P = Prog("texttables")
    d = R.choice(FL + INTS + ["bool"] + (CX if R.random() < 0.3 else []))
    s = R.choice([(1,), (2,), (3,), (5,), (1, 1), (2, 1), (1, 3), (2, 3), (3, 2), (4, 4)])
    if d in CX:
        v = [tval(R, "float32") + tval(R, "float32") for _ in range(prod(s))]
    else:
        v = [tval(R, d) for _ in range(prod(s))]
    h = mk(P, R, s, d, v)
    ints = d in INTS or d == "bool"
    exact = R.random() < 0.6 and d not in CX
    fm = fmf("d") if exact and ints else R.choice(EXACT) if exact else ftxt(R, d)
    if any(x[1] == 0 for x in v) and fm["c"] == "d" and R.random() < 0.7:
        fm = fmf("e", 18)
    dl = R.choice([" ", ",", ", ", ";", "\t", "  "])
    com = R.choice(["# ", "#", "// ", "%"])
    hdr = R.choice(["", "", "head", "two\nlines", "x y"])
    P.add("fsavetxt", [h], n=0, file=0, fm=fm, delim=c(dl), nl=c(R.choice(["\n", "\n", "\n", "\r\n"])), header=c(hdr),
          footer=c(R.choice(["", "", "tail"])), com=c(com))
    P.add("fread", [], n=1, file=0)
    if exact or R.random() < 0.3:
        if d in CX or fm["pre"] or fm["suf"]:
            return P.done()
        e = d if d in INTS + ["float64", "bool"] else "float64"
        if not exact and not ints:
            e = "float64"
        if not exact and d not in ("float64",):
            return P.done()
        if not exact and not (fm["c"] in "eE" and fm["k"] >= 12 or fm["c"] == "f" and fm["k"] >= 6):
            return P.done()
        load(P, R, e, c(dl) if dl.strip() else R.choice([[], c(dl)]) if dl != "  " else [], c(com.strip()), s)
    return P.done()

def load(P, R, d, dl, com, s=None, gen=0, **kw):
    p = dict(file=0, d=d, delim=dl, com=com, skip=R.choice([0, 0, 0, 0, 1, 2]), foot=0, usecols=[-1], maxr=-1, gen=gen, fill=[0, 1], missing=[])
    nc = s[1] if s and len(s) > 1 else 1
    if R.random() < 0.3:
        p["usecols"] = [R.randint(0, nc if R.random() < 0.1 else nc - 1) for _ in range(R.randint(1, 3))]
    if R.random() < 0.2:
        p["maxr"] = R.randint(0, 4)
    p.update(kw)
    P.add("floadtxt", [], n=1, **p)

def token(R, d):
    r = R.random()
    if d in INTS:
        v = dec(extreme(R, d), d) if r < 0.9 else R.choice([LO[d] - 1, HI[d] + 1])
        return R.choice(["%d", "%d", "%+d", "%04d"]) % v
    if r < 0.25:
        return str(R.randint(-99, 99))
    if r < 0.4:
        return R.choice(["%+d", "%03d"]) % R.randint(-99, 99)
    if r < 0.85:
        t = "%s.%s" % (R.choice(["", "0", "1", "12", "-3", "-", "+7"]), R.choice(["5", "25", "0", "125", "500", "75"]))
        return t + R.choice(["", "", "e1", "E2", "e-1", "e+2", "e0"])
    if r < 0.9:
        return str(R.randint(1, 9)) + "."
    return R.choice(["nan", "inf", "-inf", "NaN", "1e3", "12e-2", "-5E1", "Infinity", "0.1", "-0.3"])
BADTOK = ["x", "1.2.3", "--1", "1e", "", "0x1", "1,5", "e5", ".", "one", "1_0", "+"]

@prop("O01", 4)
def textparse(R, i):
    """Hand-written tables: blanks, comments, missing entries, ragged rows, bad numbers."""
    P = Prog("textparse")
    gen = R.randint(0, 1)
    d = R.choice(["float64", "float64", "int64", "int32", "uint64", "int8"])
    if gen:
        d = R.choice(["float64", "float64", "int64", "int32"])
    dl = R.choice(["", "", ",", ";", ", "])
    nr, nc = R.randint(0, 4), R.randint(1, 4)
    com = R.choice(["#", "#", "%", "//"])
    lines = []
    for _ in range(nr):
        row = [token(R, d) for _ in range(nc)]
        if R.random() < 0.08:
            row[R.randrange(nc)] = R.choice(BADTOK + ["NA"])
        if gen and R.random() < 0.3:
            row[R.randrange(nc)] = R.choice(["NA", "", "x", "--"]) if dl else R.choice(["NA", "x"])
        if R.random() < 0.05:
            row = row[:-1] if R.random() < 0.5 and nc > 1 else row + ["1"]
        sep = dl or R.choice([" ", "  ", "\t"])
        if dl and R.random() < 0.3:
            sep = R.choice([" " + dl, dl + " ", dl])
        ln = sep.join(row)
        if R.random() < 0.2:
            ln = R.choice([" ", "  ", "\t"]) + ln + R.choice([" ", ""])
        if R.random() < 0.2:
            ln += R.choice([" ", ""]) + com + R.choice(["", " note", "1"])
        lines.append(ln)
        if R.random() < 0.15:
            lines.append(R.choice(["", "   ", com + " remark", com, "  " + com + "x"]))
    if R.random() < 0.3:
        lines.insert(0, R.choice([com + " head", "a b c", "1 2 3"]))
    nl = R.choice(["\n", "\n", "\n", "\r\n"])
    txt = nl.join(lines) + (nl if R.random() < 0.8 else "")
    P.add("fwrite", [], n=0, file=0, b=c(txt))
    for _ in range(R.randint(1, 2)):
        kw = {}
        if gen:
            kw = dict(foot=R.choice([0, 0, 0, 1, 2]), fill=R.choice([[0, 1], [-1, 1], [7, 2]] if d == "float64" else [[0, 1], [-1, 1]]),
                      missing=R.choice([[], c("NA"), c("x")]))
        load(P, R, d, c(dl), c(com), (nr, nc), gen, **kw)
    return P.done()

@prop("O01", 2)
def texttofile(R, i):
    P = Prog("texttofile")
    d = R.choice(["float64", "float32", "int64", "int32", "uint64", "int8", "bool"])
    s = R.choice([(0,), (1,), (3,), (5,), (2, 3), (2, 2, 2), ()])
    h = mk(P, R, s, d, [tval(R, d) for _ in range(prod(s))])
    sep = R.choice([" ", ",", ", ", ";", "\n", "::", "\t"])
    fm = NOFM if R.random() < 0.6 else ftxt(R, d) if R.random() < 0.5 else fmf("d") if d in INTS else fmf("e", 18)
    P.add("ftofile", [h], n=0, file=0, sep=c(sep), fm=fm)
    P.add("fread", [], n=1, file=0)
    if not fm["c"] or fm["c"] == "d" and d in INTS or fm["k"] == 18:
        if not (fm["pre"] or fm["suf"]):
            P.add("ffromfile", [], n=1, file=0, d=d if d in INTS else "float64", count=R.choice([-1, -1, 0, 2, 99]), sep=c(sep), off=0 if R.random() < 0.95 else 1)
    if R.random() < 0.3:
        e = R.choice(["float64", "int64"])
        toks = [token(R, e) if R.random() < 0.95 else R.choice(BADTOK) for _ in range(R.randint(0, 5))]
        ws = [R.choice(["", "", " ", "\n"]) for _ in toks]
        P.add("fwrite", [], n=0, file=1, b=c("".join((sep if j else "") + w + t for j, (t, w) in enumerate(zip(toks, ws)))))
        P.add("ffromfile", [], n=1, file=1, d=e, count=R.choice([-1, -1, 1, 3]), sep=c(sep), off=0)
    return P.done()
