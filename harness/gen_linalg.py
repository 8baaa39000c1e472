"""Linear algebra and Fourier transforms (A01)."""
from gen import *
from fractions import Fraction as Fr
import math

LD = ["float64"] * 5 + ["float32", "float16", "int64", "int32", "int8", "int16", "uint8", "bool"]
def frank(rows):
    """exact row echelon: (rank, determinant, null space)"""
    M = [[Fr(x) for x in r] for r in rows]
    m, n = len(M), len(M[0]) if M else 0
    det, r, piv = Fr(1), 0, []
    for c in range(n):
        p = next((i for i in range(r, m) if M[i][c]), None)
        if p is None:
            continue
        if p != r:
            M[p], M[r] = M[r], M[p]
            det = -det
        det *= M[r][c]
        M[r] = [x / M[r][c] for x in M[r]]
        for i in range(m):
            if i != r and M[i][c]:
                M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    ns = []
    for c in range(n):
        if c not in piv:
            v = [Fr(0)] * n
            v[c] = Fr(1)
            for k, q in enumerate(piv):
                v[q] = -M[k][c]
            l = 1
            for x in v:
                l = l * x.denominator // math.gcd(l, x.denominator)
            ns.append([int(x * l) for x in v])
    return r, det if r == n == m else Fr(0), ns
def matmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]
def tr(a):
    return [list(c) for c in zip(*a)]
def inverse(a):
    n = len(a)
    M = [[Fr(x) for x in r] + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = next(i for i in range(c, n) if M[i][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for i in range(n):
            if i != c and M[i][c]:
                M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[c])]
    return [r[n:] for r in M]
def fpinv(a):
    """exact pseudo-inverse by full-rank factorisation"""
    r, _, _ = frank(a)
    if r == 0:
        return [[Fr(0)] * len(a) for _ in a[0]]
    # columns forming a basis
    cols = []
    for j in range(len(a[0])):
        if frank([[row[k] for k in cols + [j]] for row in a])[0] > len(cols):
            cols.append(j)
    C = [[Fr(row[k]) for k in cols] for row in a]
    # a = C F, F = (C^T C)^-1 C^T a
    CtCi = inverse(matmul(tr(C), C))
    F = matmul(matmul(CtCi, tr(C)), a)
    FFti = inverse(matmul(F, tr(F)))
    return matmul(matmul(matmul(tr(F), FFti), CtCi), tr(C))
def den(rows):
    l = 1
    for r in rows:
        for x in r:
            l = l * Fr(x).denominator // math.gcd(l, Fr(x).denominator)
    return l
def matrix(R, m, n, d, hi=4, rank=None):
    lo = 0 if d in UI or d == "bool" else -hi
    hi = 1 if d == "bool" else hi
    if rank is not None and rank < min(m, n) and lo < 0:
        u = [[R.randint(-1, 1) for _ in range(rank)] for _ in range(m)]
        v = [[R.randint(-2, 2) for _ in range(n)] for _ in range(rank)]
        return [[int(sum(x * y for x, y in zip(r, c))) for c in zip(*v)] for r in u] if rank else [[0] * n for _ in range(m)]
    return [[R.randint(lo, hi) for _ in range(n)] for _ in range(m)]
def unimodular(R, n):
    l = [[1 if i == j else (R.choice([-1, 0, 0, 1]) if j < i else 0) for j in range(n)] for i in range(n)]
    u = [[R.choice([1, -1]) if i == j else (R.choice([-1, 0, 0, 1]) if j > i else 0) for j in range(n)] for i in range(n)]
    a = matmul(l, u)
    R.shuffle(a)
    return a
def put(P, R, a, d, s=None):
    s = s or (len(a), len(a[0]) if a else 0)
    flat = [enc_cx(x, d) for r in a for x in r]
    return mk(P, R, s, d, flat, R.choice([l for l in LAYOUTS if l != "bc"]))
def enc_cx(x, d):
    return [int(x), 1]
def dimn(R):
    return R.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
def nonsing(R, d):
    """an invertible matrix with a manageable inverse"""
    for _ in range(60):
        if d not in UI and d != "bool" and R.random() < 0.3:
            a = unimodular(R, R.randint(2, 9))
        else:
            n = dimn(R)
            a = matrix(R, n, n, d, hi=R.choice([1, 2, 3, 5]))
        r, det, _ = frank(a)
        if r < len(a):
            continue
        iv = inverse(a)
        q = den(iv)
        if q <= 400 and max(abs(x) for r in iv for x in r) < 60:
            return a, iv, q
    a = [[1, 0], [1, 1]]
    return a, inverse(a), 1
@prop("A01", 3)
def systems(R, i):
    P = Prog()
    d = R.choice(LD)
    a, iv, q = nonsing(R, d)
    n = len(a)
    f = R.choice(["solve", "solve", "inv", "det", "slogdet", "matrix_power"])
    if R.random() < 0.06:      # not square, singular or not a matrix
        a = R.choice([lambda: matrix(R, n, n + 1, d), lambda: matrix(R, n + 1, n, d)])()
        if f in ("solve",):
            f = "inv"
    h = put(P, R, a, d)
    if f == "solve":
        e = R.choice(LD)
        if R.random() < 0.5:
            b, s = [[R.randint(0 if e in UI or e == "bool" else -5, 1 if e == "bool" else 7)] for _ in range(n)], (n,)
        else:
            k = R.choice([1, 2, 3])
            b, s = matrix(R, n, k, e), (n, k)
        if R.random() < 0.04:
            b, s = b + b[:1], (s[0] + 1,) + s[1:]
        P.add("la", [h, put(P, R, b, e, s)], f=f, den=q)
    elif f == "matrix_power":
        m = -R.choice([1, 1, 2, 3])
        if n > 4 or len(a) != len(a[0]):
            m = -1
        if len(a) == len(a[0]):
            w = iv
            for _ in range(-m - 1):
                w = matmul(w, iv)
            q = den(w)
            if q > 20000 or max(abs(x) for r in w for x in r) * q > 500000:
                m, q = -1, den(iv)
        P.add("la", [h], f=f, m=m, den=q)
    else:
        P.add("la", [h], f=f, den=q)
    return P.done()
@prop("A01", 2)
def dets(R, i):
    """determinant and rank of any matrix, singular ones included"""
    P = Prog()
    d = R.choice(LD)
    n = R.choice([1, 2, 3, 4, 5])
    f = R.choice(["det", "slogdet", "matrix_rank", "matrix_rank", "svnorm", "svnorm"])
    m = n if f in ("det", "slogdet") else R.choice([1, 2, 3, 4, 5, 6])
    hi = 1 if n > 4 else 3
    a = matrix(R, m, n, d, hi=hi, rank=R.choice([None, None, 1, 2, 3, 0]) if f == "matrix_rank" else None)
    if f == "matrix_rank" and R.random() < 0.15:
        a = [r[:] for r in a]
        a[-1] = a[0][:]
    if f == "svnorm" and frank(a)[0] < min(m, n):
        f = "matrix_rank"
    if f in ("slogdet", "det") and frank(a)[0] < n:
        f = "matrix_rank"
    P.add("la", [put(P, R, a, d)], f=f, fn=R.randint(0, 1))
    return P.done()
@prop("A01", 4)
def factors(R, i):
    P = Prog()
    d = R.choice(LD)
    f = R.choice(["qr", "svd", "svdvals", "eigh", "eigvalsh", "cholesky", "eig", "eigvals"])
    m, n = R.choice([1, 2, 3, 4, 5, 7]), R.choice([1, 2, 3, 4, 5, 8])
    if f not in ("qr", "svd", "svdvals"):
        m = n = R.choice([1, 2, 3, 4, 5, 6])
        if f in ("eig", "eigvals"):
            m = n = R.choice([1, 2, 3, 3, 4])
    hi = 3 if max(m, n) <= 5 else 2
    if f in ("eig", "eigvals"):
        hi = 2
    a = matrix(R, m, n, d, hi=hi, rank=R.choice([None, None, None, 1, 2]) if f == "qr" else None)
    if f in ("svd", "svdvals"):
        for _ in range(20):       # the library's solver is only reliable on full-rank matrices
            if frank(a)[0] == min(m, n):
                break
            a = matrix(R, m, n, d, hi=hi)
        else:
            f = "qr"
    if f == "eig" or f == "eigvals":
        if f == "eig":   # distinct eigenvalues: triangular plus a symmetric perturbation
            if np.linalg.matrix_rank(np.array(a)) and min([abs(x - y) for k, x in enumerate(np.linalg.eigvals(np.array(a, float))) for y in np.linalg.eigvals(np.array(a, float))[:k]] or [1]) < 0.2:
                f = "eigvals"
        if f == "eigvals" and min([abs(x - y) for k, x in enumerate(np.linalg.eigvals(np.array(a, float))) for y in np.linalg.eigvals(np.array(a, float))[:k]] or [1]) < 0.05:
            return dets(R, i)
    if f == "cholesky":
        if R.random() < 0.75:
            l = [[R.randint(1, 2) if i == j else (R.randint(-1, 1) if j < i and d not in UI and d != "bool" else (R.randint(0, 1) if j < i else 0)) for j in range(n)] for i in range(n)]
            if d == "bool":
                l = [[int(i == j) for j in range(n)] for i in range(n)]
            a = matmul(l, tr(l))
            if R.random() < 0.3:      # only the lower triangle counts
                for i in range(n):
                    for j in range(i + 1, n):
                        a[i][j] = 0 if d == "bool" else R.randint(0, 3)
        else:
            s = [[a[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
            minors = [frank([r[:k] for r in s[:k]])[1] for k in range(1, n + 1)]
            k = next((k for k, x in enumerate(minors) if x <= 0), None)
            if k is not None and minors[k] == 0:
                return factors(R, i)
    if R.random() < 0.04 and f not in ("qr", "svd", "svdvals"):
        a = [r + [1] for r in a]
    P.add("la", [put(P, R, a, d)], f=f)
    return P.done()
@prop("A01", 2)
def leastsq(R, i):
    P = Prog()
    d = R.choice(LD)
    for _ in range(50):
        m, n = R.choice([1, 2, 3, 4, 5]), R.choice([1, 2, 3, 4])
        a = matrix(R, m, n, d, hi=2, rank=R.choice([None, None, 1, 2]))
        q = fpinv(a)
        k = den(q)
        if k <= 180 and max(abs(x) for r in q for x in r) < 20:
            break
    else:
        a, m, n = [[1], [1]], 2, 1
        q = fpinv(a)
        k = den(q)
    h = put(P, R, a, d)
    if R.random() < 0.4:
        P.add("la", [h], f="pinv", den=k)
        return P.done()
    e = R.choice(LD)
    w = R.choice([0, 1, 2])
    b = [[R.randint(0 if e in UI or e == "bool" else -3, 1 if e == "bool" else 4) for _ in range(max(w, 1))] for _ in range(m)]
    ns = frank(a)[2]
    flat = [x for c in zip(*ns) for x in c] if ns else []
    s = (m,) if w == 0 else (m, w)
    if R.random() < 0.03:
        b, s = b + b[:1], (m + 1,) + s[1:]
    P.add("la", [h, put(P, R, b, e, s)], f="lstsq", den=k, ns=flat)
    return P.done()
@prop("A01", 2)
def norms(R, i):
    P = Prog()
    d = R.choice(LD)
    nd = R.choice([1, 1, 2, 2, 3])
    s = tuple(R.choice([1, 2, 3, 4, 5, 9, 17] if nd < 3 else [1, 2, 3]) for _ in range(nd))
    if R.random() < 0.03:
        s = (0,) + s[1:]
    f = R.choice(["norm", "vector_norm", "matrix_norm"])
    if nd == 3:
        f = "vector_norm"
    if f == "matrix_norm" and nd != 2:
        f = "norm"
    big = R.random() < 0.3 and d in ("int8", "uint8", "int16", "int32", "int64", "float64")
    v = lambda R, d: (enc_int(R.choice([100, 120, 127, -100, -127, 90, -128] if d == "int8" else [200, 255, 100, 90] if d == "uint8" else [1000, -900, 700, 32])) if big else smallint(R, d, -6, 9))
    o = R.choice(["", "1", "2", "inf", "-inf"] + (["0", "3", "3"] if f == "vector_norm" and not big else []) + (["fro", "-1"] if f != "vector_norm" else []))
    if nd == 2 and o == "2" and f != "vector_norm":
        o = "fro"
    if nd == 1 and o == "-1":
        o = "1"
    if 0 in s and o in ("inf", "-inf"):
        o = "1"
    P.add("la", [randarr(P, R, d, s, v, R.choice([l for l in LAYOUTS]))], f=f, o=o)
    return P.done()
@prop("A01", 1.2)
def tensors(R, i):
    P = Prog()
    d = R.choice(["float64", "float64", "int64", "float32", "int32"])
    for _ in range(60):
        if R.random() < 0.6:
            a = unimodular(R, 6 if R.random() < 0.5 else 4)
        else:
            n = R.choice([2, 3, 4, 6])
            a = matrix(R, n, n, d, hi=2)
        if frank(a)[0] == len(a):
            iv = inverse(a)
            q = den(iv)
            if q <= 200 and max(abs(x) for r in iv for x in r) < 60:
                break
    else:
        a = unimodular(R, 4)
        iv = inverse(a)
        q = den(iv)
    n = len(a)
    splits = [t for t in [(n,), (2, n // 2), (n // 2, 2), (1, n), (n, 1)] if prod(t) == n]
    x, y = R.choice(splits), R.choice(splits)
    if R.random() < 0.5:
        s = x + y
        ind, ok = len(x), 1
        P.add("la", [put(P, R, a, d, s)], f="tensorinv", ind=ind, ok=ok, den=q)
        return P.done()
    # tensorsolve: leading axes of a (after moving p.ax to the end) match b
    s = x + y
    perm, ax = list(range(len(s))), []
    b = [[R.randint(-4, 5)] for _ in range(n)]
    A = np.array(a, "int64").reshape(s)
    if R.random() < 0.5:
        k = len(y)
        # axes moved to the end, in the given order; build the operand so that moving restores A
        ax = sorted(R.sample(range(len(s)), k))
        rest = [j for j in range(len(s)) if j not in ax]
        perm = rest + ax
        inv = [perm.index(j) for j in range(len(s))]
        A = A.transpose(inv)
    P.add("la", [put(P, R, [A.reshape(-1).tolist()], d, A.shape), put(P, R, b, "float64", x)], f="tensorsolve", ax=ax, perm=perm, ok=1, den=q)
    return P.done()

def lcm(*q):
    l = 1
    for x in q:
        l = l * x // math.gcd(l, x)
    return l
@prop("A01", 5)
def transforms(R, i):
    P = Prog()
    f = R.choice(["fft", "ifft", "rfft", "irfft", "hfft", "ihfft", "fft2", "ifft2", "rfft2", "irfft2", "fftn", "ifftn", "rfftn", "irfftn", "fftn", "rfftn", "irfftn"])
    one = f in ("fft", "ifft", "rfft", "irfft", "hfft", "ihfft")
    nd = 1 if one else 2 if f.endswith("2") else R.choice([1, 2, 2, 3])
    L = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16] if nd == 1 else [1, 2, 3, 4, 5, 6] if nd == 2 else [1, 2, 3, 4]
    s = [R.choice(L) for _ in range(nd)]
    while prod(s) > 36:
        s[s.index(max(s))] -= 1
    real_in = f in ("rfft", "rfft2", "rfftn", "ihfft")
    d = R.choice(["float64", "float64", "complex128", "complex128", "complex64", "float32", "int64", "int8", "uint8", "bool", "float16"])
    if real_in and d in CX:
        d = "float64"
    axes = 0
    ax = list(range(nd))
    if f in ("fftn", "ifftn", "rfftn", "irfftn") and R.random() < 0.6:
        axes = 1
        ax = R.sample(range(nd), R.randint(1, nd))
    ok = 1
    last = ax[-1]
    n, sh = 0, []
    if f in ("irfft", "irfft2", "irfftn", "hfft"):
        n = 2 * (s[last] - 1)
        if f != "irfft" and R.random() < 0.5:
            n = R.choice([2 * s[last] - 1, 2 * (s[last] - 1), 2 * s[last], max(1, s[last] - 1)])
            n = max(1, n)
            sh = [n] if f == "hfft" else [n if k == last else s[k] for k in range(nd)]
        if n == 0:
            ok = 0
    if R.random() < 0.03:
        if one:
            nd, s, ok, ax = 2, [2, 3], 0, [1]
        elif f.endswith("2"):
            nd, s, ok, ax = 1, [4], 0, [0]
    N = lcm(*[(n if (k == last and n) else s[k]) for k in ax])
    c = [int(round(math.cos(2 * math.pi * k / N) * 16384)) for k in range(N)]
    t = [int(round(math.sin(2 * math.pi * k / N) * 16384)) for k in range(N)]
    x = randarr(P, R, d, tuple(s), smallint)
    P.add("dft", [x], f=f, ax=ax, axes=axes, N=N, c=c, t=t, nn=n, sh=sh, ok=ok, dt=8 if f in ("irfft", "irfft2", "irfftn", "hfft") else 16)
    return P.done()
