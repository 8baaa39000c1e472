------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Element values of rumpy arrays and their exact arithmetic.              *)
(*                                                                         *)
(* A value is a tuple of integers:                                         *)
(*   <<n, d>>              the rational n/d in lowest terms, d > 0,        *)
(*                         |n| < 2^30                                      *)
(*   <<0, 0>>              NaN (and NaT)                                   *)
(*   <<1, 0>>, <<-1, 0>>   +Inf, -Inf                                      *)
(*   <<s, 1, l0 .. l4>>    the integer s * (l0 + l1*2^14 + .. + l4*2^56),  *)
(*                         used when the magnitude is at least 2^30        *)
(*   <<n, d, n2, d2>>      the complex number n/d + i*n2/d2                *)
(* The encoding is canonical: equal values are equal tuples.               *)
(* TLC integers have 32 bits, hence the limbs.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise

NaN  == <<0, 0>>
PInf == <<1, 0>>
NInf == <<-1, 0>>
Zero == <<0, 1>>
One  == <<1, 1>>
I(n) == <<n, 1>>
Bool(b) == IF b THEN One ELSE Zero

IsBig(v) == Len(v) = 7
IsCx(v)  == Len(v) = 4
IsNaN(v) == IF Len(v) = 4 THEN (v[1] = 0 /\ v[2] = 0) \/ (v[3] = 0 /\ v[4] = 0)
            ELSE v[1] = 0 /\ v[2] = 0
IsInf(v) == Len(v) = 2 /\ v[2] = 0 /\ v[1] # 0
IsFinite(v) == v[2] # 0 /\ (IsCx(v) => v[4] # 0)
IsIntVal(v) == Len(v) = 7 \/ (Len(v) = 2 /\ v[2] = 1)

AbsI(n) == IF n < 0 THEN -n ELSE n
SgnI(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)

B  == 16384
BB == 268435456
Small == 1073741824          \* 2^30

(* ---- magnitudes: five limbs, base 2^14, little endian ---- *)
MagOfInt(n) == <<n % B, (n \div B) % B, n \div BB, 0, 0>>
Mag(v) == IF Len(v) = 7 THEN <<v[3], v[4], v[5], v[6], v[7]>> ELSE MagOfInt(AbsI(v[1]))
Sgn(v) == SgnI(v[1])
FromMag(s, m) ==
  IF m[4] = 0 /\ m[5] = 0 /\ m[3] < 4
  THEN <<s * (m[1] + m[2] * B + m[3] * BB), 1>>
  ELSE <<s, 1, m[1], m[2], m[3], m[4], m[5]>>
MagCmp(a, b) ==
  IF a[5] # b[5] THEN SgnI(a[5] - b[5]) ELSE IF a[4] # b[4] THEN SgnI(a[4] - b[4])
  ELSE IF a[3] # b[3] THEN SgnI(a[3] - b[3]) ELSE IF a[2] # b[2] THEN SgnI(a[2] - b[2])
  ELSE SgnI(a[1] - b[1])
Norm5(x1, x2, x3, x4, x5) ==   \* carry propagation (inputs may be negative), modulo 2^70
  LET y1 == x1 % B  c1 == x1 \div B
      y2 == (x2 + c1) % B  c2 == (x2 + c1) \div B
      y3 == (x3 + c2) % B  c3 == (x3 + c2) \div B
      y4 == (x4 + c3) % B  c4 == (x4 + c3) \div B
  IN <<y1, y2, y3, y4, (x5 + c4) % B>>
MagAdd(a, b) == Norm5(a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5])
MagSub(a, b) == Norm5(a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5])
MagMul(a, b) ==                \* modulo 2^70
  LET k0 == a[1] * b[1]
      c0 == k0 \div B
      k1 == c0 + a[1] * b[2] + a[2] * b[1]
      c1 == k1 \div B
      k2 == c1 + a[1] * b[3] + a[2] * b[2] + a[3] * b[1]
      c2 == k2 \div B
      k3 == c2 + a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1]
      c3 == k3 \div B
      k4 == c3 + a[1] * b[5] + a[2] * b[4] + a[3] * b[3] + a[4] * b[2] + a[5] * b[1]
  IN <<k0 % B, k1 % B, k2 % B, k3 % B, k4 % B>>
MagZero == <<0, 0, 0, 0, 0>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
MagPow2(k) == [i \in 1..5 |-> IF k \div 14 = i - 1 THEN Pow2(k % 14) ELSE 0]
MagDouble(a) == MagAdd(a, a)
MagBit(a, k) == (a[(k \div 14) + 1] \div Pow2(k % 14)) % 2
RECURSIVE MagDivR(_, _, _, _, _)
MagDivR(a, b, k, q, r) ==      \* schoolbook binary division
  IF k < 0 THEN <<q, r>>
  ELSE LET r2 == TLCEval(MagAdd(MagDouble(r), MagOfInt(MagBit(a, k))))
       IN IF MagCmp(r2, b) >= 0
          THEN MagDivR(a, b, k - 1, TLCEval(MagAdd(MagDouble(q), MagOfInt(1))), TLCEval(MagSub(r2, b)))
          ELSE MagDivR(a, b, k - 1, TLCEval(MagDouble(q)), r2)
MagDivMod(a, b) == MagDivR(a, b, 68, MagZero, MagZero)
MagMod2(m, w) ==               \* m modulo 2^w
  CASE w = 64 -> <<m[1], m[2], m[3], m[4], m[5] % 256>>
    [] w = 32 -> <<m[1], m[2], m[3] % 16, 0, 0>>
    [] w = 16 -> <<m[1], m[2] % 4, 0, 0, 0>>
    [] w = 8  -> <<m[1] % 256, 0, 0, 0, 0>>

(* ---- integers (exact; sums must stay below 2^69 in magnitude) ---- *)
IsSmallInt(v) == Len(v) = 2 /\ v[2] = 1
Canon(n) == IF n < Small /\ n > -Small THEN <<n, 1>> ELSE FromMag(SgnI(n), MagOfInt(AbsI(n)))
BigAdd(a, b) ==
  LET ma == Mag(a) mb == Mag(b) sa == Sgn(a) sb == Sgn(b) IN
  IF sa = 0 THEN b ELSE IF sb = 0 THEN a
  ELSE IF sa = sb THEN FromMag(sa, MagAdd(ma, mb))
  ELSE LET c == MagCmp(ma, mb) IN
       IF c = 0 THEN Zero ELSE IF c > 0 THEN FromMag(sa, MagSub(ma, mb)) ELSE FromMag(sb, MagSub(mb, ma))
IntAdd(a, b) == IF Len(a) = 2 /\ Len(b) = 2 THEN Canon(a[1] + b[1]) ELSE BigAdd(a, b)
IntNeg(a) == IF Len(a) = 2 THEN <<-a[1], 1>> ELSE [a EXCEPT ![1] = -a[1]]
IntSub(a, b) == IntAdd(a, IntNeg(b))
IntMul(a, b) ==                \* modulo 2^70 in magnitude
  IF Len(a) = 2 /\ Len(b) = 2 /\ a[1] < 32768 /\ a[1] > -32768 /\ b[1] < 32768 /\ b[1] > -32768
  THEN <<a[1] * b[1], 1>>
  ELSE IF Sgn(a) * Sgn(b) = 0 THEN Zero ELSE FromMag(Sgn(a) * Sgn(b), MagMul(Mag(a), Mag(b)))
IntCmp(a, b) ==
  IF Len(a) = 2 /\ Len(b) = 2 THEN SgnI(a[1] - b[1])
  ELSE IF Sgn(a) # Sgn(b) THEN SgnI(Sgn(a) - Sgn(b)) ELSE Sgn(a) * MagCmp(Mag(a), Mag(b))
IntDivMod(a, b) ==             \* floor division, b # 0: <<quotient, remainder>>
  IF Len(a) = 2 /\ Len(b) = 2
  THEN LET q == IF b[1] > 0 THEN a[1] \div b[1] ELSE (-a[1]) \div (-b[1])
       IN <<<<q, 1>>, <<a[1] - q * b[1], 1>>>>
  ELSE LET qr == MagDivMod(Mag(a), Mag(b))
           s  == Sgn(a) * Sgn(b)
           q0 == IF s = 0 THEN Zero ELSE FromMag(s, qr[1])
           r0 == IF Sgn(a) = 0 THEN Zero ELSE FromMag(Sgn(a), qr[2])
       IN IF r0 # Zero /\ Sgn(a) # Sgn(b)
          THEN <<IntSub(q0, One), IntAdd(r0, b)>> ELSE <<q0, r0>>
IntTruncMod(a, b) ==           \* remainder with the sign of a
  LET qr == IntDivMod(a, b) IN
  IF qr[2] # Zero /\ Sgn(a) # Sgn(b) THEN IntSub(qr[2], b) ELSE qr[2]
RECURSIVE IntGcd(_, _)
IntGcd(a, b) == IF b = Zero THEN a ELSE IntGcd(b, IntDivMod(a, b)[2])
IntAbs(a) == IF Sgn(a) < 0 THEN IntNeg(a) ELSE a

WrapInt(v, w, signed) ==       \* two's complement reduction to w bits
  IF Len(v) = 2 /\ ( \/ (signed /\ w >= 32)
                     \/ (~signed /\ w >= 32 /\ v[1] >= 0)
                     \/ (v[1] >= 0 /\ v[1] < 128) )
  THEN v
  ELSE LET m  == MagMod2(Mag(v), w)
           u  == IF Sgn(v) < 0 /\ m # MagZero THEN MagSub(MagPow2(w), m) ELSE m
       IN IF signed /\ MagBit(u, w - 1) = 1
          THEN FromMag(-1, MagSub(MagPow2(w), u))
          ELSE IF u = MagZero THEN Zero ELSE FromMag(1, u)
Twos(v, w) == LET m == MagMod2(Mag(v), w) IN
  IF Sgn(v) < 0 /\ m # MagZero THEN MagSub(MagPow2(w), m) ELSE m
FromTwos(u, w, signed) ==
  IF signed /\ MagBit(u, w - 1) = 1 THEN FromMag(-1, MagSub(MagPow2(w), u))
  ELSE IF u = MagZero THEN Zero ELSE FromMag(1, u)
BitOp(op, a, b, w, signed) ==
  LET x == Twos(a, w) y == Twos(b, w)
  IN FromTwos([i \in 1..5 |-> CASE op = "and" -> x[i] & y[i]
                                [] op = "or"  -> x[i] | y[i]
                                [] op = "xor" -> x[i] ^^ y[i]], w, signed)

(* ---- rationals (small numerators and denominators) ---- *)
Rat(n, d) ==                   \* d > 0
  IF d = 1 THEN Canon(n)
  ELSE LET g == GcdI(AbsI(n), d) IN IF n = 0 THEN Zero ELSE <<n \div g, d \div g>>
Frac(v) == Len(v) = 2 /\ v[2] > 1
FAdd(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a # b THEN NaN ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE IF Frac(a) \/ Frac(b)
       THEN IF a[2] = b[2] THEN Rat(a[1] + b[1], a[2])
            ELSE LET g == GcdI(a[2], b[2]) IN
                 Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
  ELSE IntAdd(a, b)
FNeg(a) == IF Len(a) = 2 THEN <<-a[1], a[2]>> ELSE IntNeg(a)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(a) \/ IsInf(b)
       THEN LET s == Sgn(a) * Sgn(b) IN IF s = 0 THEN NaN ELSE <<s, 0>>
  ELSE IF Frac(a) \/ Frac(b)
       THEN LET g1 == GcdI(AbsI(a[1]), b[2]) g2 == GcdI(AbsI(b[1]), a[2]) IN
            IF a[1] = 0 \/ b[1] = 0 THEN Zero
            ELSE <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
  ELSE IntMul(a, b)
FInv(a) ==                     \* 1/a for finite a # 0
  IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
FDiv(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(b) THEN (IF IsInf(a) THEN NaN ELSE Zero)
  ELSE IF Sgn(b) = 0 THEN (IF Sgn(a) = 0 THEN NaN ELSE <<Sgn(a), 0>>)
  ELSE IF IsInf(a) THEN <<Sgn(a) * Sgn(b), 0>>
  ELSE IF IsBig(a) \/ IsBig(b)
       THEN LET qr == IntDivMod(a, b) IN qr[1]   \* callers use exact quotients only
  ELSE FMul(a, FInv(b))
FCmp(a, b) ==                  \* -1, 0, 1; neither NaN
  IF a = b THEN 0
  ELSE IF IsInf(a) THEN Sgn(a)
  ELSE IF IsInf(b) THEN -Sgn(b)
  ELSE IF Frac(a) \/ Frac(b)
       THEN IF Sgn(a) # Sgn(b) THEN SgnI(Sgn(a) - Sgn(b))
            ELSE IF IsBig(a) THEN Sgn(a) ELSE IF IsBig(b) THEN -Sgn(b)
            ELSE LET qa == a[1] \div a[2] qb == b[1] \div b[2] IN
                 IF qa # qb THEN SgnI(qa - qb)
                 ELSE SgnI((a[1] % a[2]) * b[2] - (b[1] % b[2]) * a[2])
  ELSE IntCmp(a, b)
FAbs(a) == IF IsNaN(a) THEN a ELSE IF Sgn(a) < 0 THEN FNeg(a) ELSE a
FFloor(a) == IF Frac(a) THEN <<a[1] \div a[2], 1>> ELSE a
FCeil(a) == FNeg(FFloor(FNeg(a)))
FTrunc(a) == IF Sgn(a) < 0 THEN FCeil(a) ELSE FFloor(a)
FRoundAway(a) ==               \* nearest, ties away from zero
  IF ~Frac(a) THEN a
  ELSE LET r == <<(2 * AbsI(a[1]) + a[2]) \div (2 * a[2]), 1>> IN IF Sgn(a) < 0 THEN FNeg(r) ELSE r
FRoundEven(a) ==               \* nearest, ties to even
  IF ~Frac(a) THEN a
  ELSE IF a[2] = 2
       THEN LET f == a[1] \div 2 IN IF f % 2 = 0 THEN <<f, 1>> ELSE <<f + 1, 1>>
       ELSE FRoundAway(a)
FMod(a, b) ==                  \* floor remainder (Python %), finite b # 0
  FSub(a, FMul(b, FFloor(FDiv(a, b))))

(* ---- complex ---- *)
Re(v) == IF IsCx(v) THEN <<v[1], v[2]>> ELSE v
Im(v) == IF IsCx(v) THEN <<v[3], v[4]>> ELSE Zero
Cx(r, i) == r \o i
CAdd(a, b) == Cx(FAdd(Re(a), Re(b)), FAdd(Im(a), Im(b)))
CSub(a, b) == Cx(FSub(Re(a), Re(b)), FSub(Im(a), Im(b)))
CMul(a, b) == Cx(FSub(FMul(Re(a), Re(b)), FMul(Im(a), Im(b))),
                 FAdd(FMul(Re(a), Im(b)), FMul(Im(a), Re(b))))
CNeg(a) == Cx(FNeg(Re(a)), FNeg(Im(a)))
CConj(a) == Cx(Re(a), FNeg(Im(a)))
CDiv(a, b) ==
  LET n == FAdd(FMul(Re(b), Re(b)), FMul(Im(b), Im(b)))
      z == CMul(a, CConj(b)) IN Cx(FDiv(Re(z), n), FDiv(Im(z), n))

(* ---- dtypes ---- *)
IntTypes  == {"int8", "int16", "int32", "int64"}
UIntTypes == {"uint8", "uint16", "uint32", "uint64"}
FloatTypes == {"float16", "float32", "float64"}
CxTypes == {"complex64", "complex128"}
IsIntT(d) == d \in IntTypes \/ d \in UIntTypes
Kind(d) == CASE d = "bool" -> "b" [] d \in IntTypes -> "i" [] d \in UIntTypes -> "u"
             [] d \in FloatTypes -> "f" [] d \in CxTypes -> "c" [] OTHER -> "o"
Width(d) == CASE d \in {"int8", "uint8"} -> 8 [] d \in {"int16", "uint16", "float16"} -> 16
              [] d \in {"int32", "uint32", "float32"} -> 32
              [] d \in {"int64", "uint64", "float64", "complex64"} -> 64
              [] d = "complex128" -> 128 [] OTHER -> 8
Wrap(d, v) == WrapInt(v, Width(d), Kind(d) = "i")
Truthy(v) == IF Len(v) = 4 THEN ~(v[1] = 0 /\ v[2] # 0 /\ v[3] = 0 /\ v[4] # 0)
             ELSE ~(v[1] = 0 /\ v[2] # 0)

(* dtype-directed arithmetic; both operands are values of dtype d *)
Add(d, a, b) == CASE Kind(d) \in {"i", "u"} -> Wrap(d, IntAdd(a, b))
                  [] Kind(d) = "b" -> Bool(Truthy(a) \/ Truthy(b))
                  [] Kind(d) = "c" -> CAdd(a, b)
                  [] OTHER -> FAdd(a, b)
Sub(d, a, b) == CASE Kind(d) \in {"i", "u"} -> Wrap(d, IntSub(a, b))
                  [] Kind(d) = "c" -> CSub(a, b)
                  [] OTHER -> FSub(a, b)
Mul(d, a, b) == CASE Kind(d) \in {"i", "u"} -> Wrap(d, IntMul(a, b))
                  [] Kind(d) = "b" -> Bool(Truthy(a) /\ Truthy(b))
                  [] Kind(d) = "c" -> CMul(a, b)
                  [] OTHER -> FMul(a, b)
Neg(d, a) == CASE Kind(d) \in {"i", "u"} -> Wrap(d, IntNeg(a))
               [] Kind(d) = "c" -> CNeg(a) [] OTHER -> FNeg(a)
\* total order used by sorting: NaN last; complex lexicographic
Cmp(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN (IF IsNaN(a) /\ IsNaN(b) THEN 0 ELSE IF IsNaN(a) THEN 1 ELSE -1)
  ELSE IF IsCx(a) THEN LET c == FCmp(Re(a), Re(b)) IN IF c # 0 THEN c ELSE FCmp(Im(a), Im(b))
  ELSE FCmp(a, b)
Lt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) < 0
Le(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) <= 0
Eq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a = b

(* conversion of a value to another dtype (the source value is representable
   or truncates toward zero; integer-to-integer conversion wraps) *)
Cast(v, src, dst) ==
  LET w == IF Kind(src) = "c" /\ Kind(dst) # "c" THEN Re(v) ELSE v IN
  CASE Kind(dst) = "b" -> Bool(Truthy(v))
    [] Kind(dst) \in {"i", "u"} -> Wrap(dst, FTrunc(w))
    [] Kind(dst) = "c" -> IF IsCx(v) THEN v ELSE Cx(v, Zero)
    [] OTHER -> w
=============================================================================
