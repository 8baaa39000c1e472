"""Encoding of element values as the integer tuples of spec/Values.tla."""
import math, struct
from fractions import Fraction

SMALL = 1 << 30

def enc_int(n):
    if -SMALL < n < SMALL:
        return [n, 1]
    s = -1 if n < 0 else 1
    m = abs(n)
    if m >= 1 << 70:
        return [m % 1000003, s, 9]          # outside the model: never equal to a model value
    return [s, 1] + [(m >> (14 * i)) & 16383 for i in range(5)]

def dec_int(v):
    if len(v) == 2:
        return v[0]
    return v[0] * sum(l << (14 * i) for i, l in enumerate(v[2:]))

# per dtype: relative tolerance, largest denominator tried
TOL = {"float64": (1e-10, 200000), "float32": (6e-5, 300), "float16": (6e-3, 16),
       "py": (1e-10, 200000)}

DYADIC = {"float32": 1024, "float16": 64}
SZ = [0]     # 1: programs that observe the sign of zero
def enc_float(x, dt="float64"):
    if SZ[0] and x == 0 and math.copysign(1.0, x) < 0:
        return [0, -1]
    if x != x:
        return [0, 0]
    if math.isinf(x):
        return [1, 0] if x > 0 else [-1, 0]
    tol, q = TOL.get(dt, TOL["float64"])
    if x == int(x):
        return enc_int(int(x))
    f = Fraction(x)                       # dyadic rationals are exact
    if f.denominator <= DYADIC.get(dt, 4096) and abs(f.numerator) < SMALL:
        return [f.numerator, f.denominator]
    ax = abs(x)
    r = round(x)
    if abs(x - r) <= tol * max(1.0, ax) * 0.01:
        return enc_int(int(r))
    if ax < 1e6:
        f = Fraction(x).limit_denominator(q)
        if abs(float(f) - x) <= tol * max(1.0, ax) * 0.01:
            if abs(f.numerator) < SMALL:
                return [f.numerator, f.denominator]
    b = struct.unpack("<Q", struct.pack("<d", x))[0]
    return [b >> 34 & 0x3fffffff, b & 0x3fffffff, 7]

def enc(x, dt):
    if dt in ("complex128", "complex64"):
        sub = "float64" if dt == "complex128" else "float32"
        x = complex(x.real + 0.0, x.imag + 0.0)
        return enc_float(x.real, sub) + enc_float(x.imag, sub)
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, bytes):
        return list(x)
    if isinstance(x, bool):
        return [int(x), 1]
    if isinstance(x, int):
        return enc_int(x)
    if isinstance(x, complex):
        x = complex(x.real + 0.0, x.imag + 0.0)
        return enc_float(x.real) + enc_float(x.imag)
    return enc_float(float(x), dt)

def dec(v, dt):
    """Model value -> Python object suitable for numpy construction."""
    if dt.startswith("complex"):
        return complex(dec(v[:2], "float64"), dec(v[2:], "float64"))
    if dt in ("float64", "float32", "float16", "py"):
        if len(v) == 7:
            return float(dec_int(v))
        n, d = v
        if d == 0:
            return float("nan") if n == 0 else math.copysign(float("inf"), n)
        if n == 0 and d == -1:
            return -0.0
        return n / d
    if dt == "bool":
        return bool(v[0])
    if dt.startswith("<U") or dt == "str":
        return "".join(map(chr, v))
    return dec_int(v)
