-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Element-wise functions: dtype promotion, integer, boolean, IEEE float   *)
(* and complex semantics.  <<0, -1>> is the float -0.0; it is produced and *)
(* observed only by programs that track signed zeros (p.sz = 1).           *)
(***************************************************************************)
EXTENDS NDArray

Err == [err |-> "E", res |-> <<>>]
ErrIdx == [err |-> "IndexError", res |-> <<>>]
Ok(rs) == [err |-> "", res |-> rs]
RA(A) == [t |-> "arr", a |-> A]
RS(v) == [t |-> "sc", v |-> v]
Ok1(A) == Ok(<<RA(A)>>)
OkS(v) == Ok(<<RS(v)>>)

(* ------------------------------- promotion ------------------------------ *)
IntOfWidth(w) == CASE w = 8 -> "int8" [] w = 16 -> "int16" [] w = 32 -> "int32" [] w = 64 -> "int64"
FloatOfWidth(w) == CASE w = 16 -> "float16" [] w = 32 -> "float32" [] w = 64 -> "float64"
\* smallest float that holds an integer (or boolean) dtype
FloatFor(d) == IF Width(d) = 8 THEN 16 ELSE IF Width(d) = 16 THEN 32 ELSE 64
FW(d) == CASE Kind(d) = "f" -> Width(d) [] Kind(d) = "c" -> Width(d) \div 2 [] Kind(d) = "b" -> 16 [] OTHER -> FloatFor(d)
Promote(a, b) ==
  IF a = b THEN a
  ELSE IF a = "bool" THEN b ELSE IF b = "bool" THEN a
  ELSE LET ka == Kind(a) kb == Kind(b) IN
       IF ka = "c" \/ kb = "c" THEN (IF MaxI(FW(a), FW(b)) = 64 THEN "complex128" ELSE "complex64")
       ELSE IF ka = "f" \/ kb = "f" THEN FloatOfWidth(MaxI(FW(a), FW(b)))
       ELSE IF ka = kb THEN (IF Width(a) >= Width(b) THEN a ELSE b)
       ELSE LET s == IF ka = "i" THEN a ELSE b
                u == IF ka = "i" THEN b ELSE a
            IN IF Width(s) > Width(u) THEN s
               ELSE IF Width(u) = 64 THEN "float64" ELSE IntOfWidth(2 * Width(u))
DivFloat(d) == IF IsIntT(d) THEN FloatOfWidth(FloatFor(d)) ELSE d
DivType(a, b) == IF IsIntT(a) /\ IsIntT(b) THEN "float64" ELSE Promote(DivFloat(a), DivFloat(b))
\* dtype of functions that are float valued on integers
FloatResult(d) == IF Kind(d) \in {"f", "c"} THEN d ELSE FloatOfWidth(FloatFor(d))

(* ----------------------------- signed zeros ----------------------------- *)
NZ == <<0, -1>>
IsZ(v) == v[1] = 0 /\ v[2] # 0 /\ Len(v) = 2
NegSign(v) == Sgn(v) < 0 \/ v = NZ            \* sign bit of a non-NaN value
Z(v) == IF v = NZ THEN Zero ELSE v            \* forget the sign of zero
ZC(v) == IF Len(v) = 4 THEN Z(<<v[1], v[2]>>) \o Z(<<v[3], v[4]>>) ELSE Z(v)
SignedZero(neg) == IF neg THEN NZ ELSE Zero
SNeg(v) == IF IsZ(v) THEN SignedZero(~NegSign(v)) ELSE FNeg(v)
SAdd(a, b) == IF IsZ(a) /\ IsZ(b) THEN SignedZero(a = NZ /\ b = NZ) ELSE FAdd(Z(a), Z(b))
SSub(a, b) == SAdd(a, SNeg(b))
SMul(a, b) == LET r == FMul(Z(a), Z(b)) IN IF IsZ(r) THEN SignedZero(NegSign(a) # NegSign(b)) ELSE r
SDiv(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsZ(b) THEN (IF IsZ(a) THEN NaN ELSE IF NegSign(a) # NegSign(b) THEN NInf ELSE PInf)
  ELSE LET r == FDiv(Z(a), b) IN IF IsZ(r) THEN SignedZero(NegSign(a) # NegSign(b)) ELSE r
\* floor division and remainder of floats (Python semantics)
SMod(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) \/ IsInf(a) \/ IsZ(b) THEN NaN
  ELSE IF IsInf(b) THEN (IF IsZ(a) THEN SignedZero(NegSign(b)) ELSE IF NegSign(a) = NegSign(b) THEN a ELSE b)
  ELSE LET r == FMod(Z(a), b) IN IF IsZ(r) THEN SignedZero(NegSign(b)) ELSE r
SFloorDiv(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsZ(b) THEN SDiv(a, b)
  ELSE IF IsInf(a) THEN NaN
  ELSE IF IsInf(b) THEN (IF IsZ(a) THEN SignedZero(NegSign(a) # NegSign(b)) ELSE IF NegSign(a) = NegSign(b) THEN Zero ELSE <<-1, 1>>)
  ELSE LET r == FFloor(FDiv(Z(a), b)) IN IF IsZ(r) THEN SignedZero(NegSign(a) # NegSign(b)) ELSE r
SFmod(a, b) ==                 \* C fmod: sign of the dividend
  IF IsNaN(a) \/ IsNaN(b) \/ IsInf(a) \/ IsZ(b) THEN NaN
  ELSE IF IsInf(b) THEN a
  ELSE LET r == FMod(FAbs(Z(a)), FAbs(b)) IN
       IF NegSign(a) THEN SNeg(r) ELSE r
RECURSIVE PowPos(_, _, _)
PowPos(d, a, n) == IF n = 0 THEN (IF Kind(d) = "c" THEN Cx(One, Zero) ELSE One)
                   ELSE Mul(d, PowPos(d, a, n - 1), a)
\* integer powers with exponents of any size: square and multiply, wrapping
RECURSIVE IntPow(_, _, _)
IntPow(d, a, n) ==
  IF n = 0 THEN Wrap(d, One)
  ELSE LET h == TLCEval(IntPow(d, a, n \div 2)) q == TLCEval(Wrap(d, IntMul(h, h)))
       IN IF n % 2 = 1 THEN Wrap(d, IntMul(q, a)) ELSE q
SPow(a, b) ==                  \* b integral and small, or special
  IF IsZ(b) THEN One ELSE IF a = One THEN One
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsInf(b)
       THEN LET c == FCmp(FAbs(Z(a)), One) IN
            IF c = 0 THEN One ELSE IF (c > 0) = (Sgn(b) > 0) THEN PInf ELSE Zero
  ELSE LET odd == b[1] % 2 = 1 IN
       IF IsInf(a) THEN (IF Sgn(b) > 0 THEN (IF Sgn(a) < 0 /\ odd THEN NInf ELSE PInf)
                         ELSE SignedZero(Sgn(a) < 0 /\ odd))
       ELSE IF IsZ(a) THEN (IF Sgn(b) > 0 THEN SignedZero(a = NZ /\ odd)
                            ELSE IF a = NZ /\ odd THEN NInf ELSE PInf)
       ELSE IF Sgn(b) > 0 THEN PowPos("float64", a, b[1]) ELSE FInv(PowPos("float64", a, -b[1]))

(* ----------------------------- binary, by dtype -------------------------- *)
BitW(d) == IF d = "bool" THEN 8 ELSE Width(d)

Pow2V(k) == IF k < 30 THEN <<Pow2(k), 1>> ELSE FromMag(1, MagPow2(k))
Shl(d, a, k) == IF k >= Width(d) THEN Zero ELSE Wrap(d, IntMul(a, Pow2V(k)))
Shr(d, a, k) == IF k >= Width(d) THEN (IF Sgn(a) < 0 THEN <<-1, 1>> ELSE Zero)
                ELSE IntDivMod(a, Pow2V(k))[1]
ShiftCount(b) == IF Len(b) = 2 THEN b[1] ELSE 100
BinInt(f, d, a, b) ==
  CASE f = "add" -> Add(d, a, b)
    [] f = "subtract" -> Sub(d, a, b)
    [] f = "multiply" -> Mul(d, a, b)
    [] f = "floor_divide" -> IF b = Zero THEN Zero ELSE Wrap(d, IntDivMod(a, b)[1])
    [] f = "remainder" -> IF b = Zero THEN Zero ELSE IntDivMod(a, b)[2]
    [] f = "fmod" -> IF b = Zero THEN Zero ELSE IntTruncMod(a, b)
    [] f = "power" -> IntPow(d, a, b[1])
    [] f \in {"maximum", "fmax"} -> IF IntCmp(a, b) >= 0 THEN a ELSE b
    [] f \in {"minimum", "fmin"} -> IF IntCmp(a, b) <= 0 THEN a ELSE b
    [] f = "bitwise_and" -> BitOp("and", a, b, Width(d), Kind(d) = "i")
    [] f = "bitwise_or" -> BitOp("or", a, b, Width(d), Kind(d) = "i")
    [] f = "bitwise_xor" -> BitOp("xor", a, b, Width(d), Kind(d) = "i")
    [] f = "left_shift" -> Shl(d, a, ShiftCount(b))
    [] f = "right_shift" -> Shr(d, a, ShiftCount(b))
    [] f = "gcd" -> Wrap(d, IntGcd(IntAbs(a), IntAbs(b)))
    [] f = "lcm" -> IF a = Zero \/ b = Zero THEN Zero
                    ELSE Wrap(d, IntMul(IntDivMod(IntAbs(a), IntGcd(IntAbs(a), IntAbs(b)))[1], IntAbs(b)))
BinBool(f, a, b) ==
  LET x == Truthy(a) y == Truthy(b) IN
  CASE f \in {"add", "bitwise_or", "maximum", "fmax"} -> Bool(x \/ y)
    [] f \in {"multiply", "bitwise_and", "minimum", "fmin"} -> Bool(x /\ y)
    [] f = "bitwise_xor" -> Bool(x # y)
BinFloat(f, a, b) ==
  CASE f = "add" -> SAdd(a, b)
    [] f = "subtract" -> SSub(a, b)
    [] f = "multiply" -> SMul(a, b)
    [] f = "divide" -> SDiv(a, b)
    [] f = "floor_divide" -> SFloorDiv(a, b)
    [] f = "remainder" -> SMod(a, b)
    [] f = "fmod" -> SFmod(a, b)
    [] f = "power" -> SPow(a, b)
    [] f = "maximum" -> IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF FCmp(a, b) >= 0 THEN a ELSE b
    [] f = "minimum" -> IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF FCmp(a, b) <= 0 THEN a ELSE b
    [] f = "fmax" -> IF IsNaN(a) THEN b ELSE IF IsNaN(b) THEN a ELSE IF FCmp(a, b) >= 0 THEN a ELSE b
    [] f = "fmin" -> IF IsNaN(a) THEN b ELSE IF IsNaN(b) THEN a ELSE IF FCmp(a, b) <= 0 THEN a ELSE b
    [] f = "copysign" -> IF IsNaN(a) THEN NaN
                         ELSE IF NegSign(a) = NegSign(b) THEN a ELSE SNeg(a)
    [] f = "heaviside" -> IF IsNaN(a) THEN NaN ELSE IF IsZ(a) THEN b ELSE IF Sgn(a) < 0 THEN Zero ELSE One
BinCx(f, a, b) ==
  CASE f = "add" -> CAdd(a, b)
    [] f = "subtract" -> CSub(a, b)
    [] f = "multiply" -> CMul(a, b)
    [] f = "divide" -> CDiv(a, b)
    [] f = "power" -> PowPos("complex128", a, b[1])
Bin(f, d, a, b) ==
  CASE Kind(d) \in {"i", "u"} -> BinInt(f, d, a, b)
    [] Kind(d) = "b" -> BinBool(f, a, b)
    [] Kind(d) = "f" -> BinFloat(f, a, b)
    [] Kind(d) = "c" -> BinCx(f, a, b)

CmpF == {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}
LogF == {"logical_and", "logical_or", "logical_xor"}
\* exact comparison of two numbers of any real dtypes (complex: equality only)
CmpV(f, a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN f = "not_equal"
  ELSE IF IsCx(a) \/ IsCx(b)
       THEN LET e == ZC(IF IsCx(a) THEN a ELSE Cx(a, Zero)) = ZC(IF IsCx(b) THEN b ELSE Cx(b, Zero))
            IN (f = "equal") = e
  ELSE LET c == FCmp(Z(a), Z(b)) IN
       CASE f = "equal" -> c = 0 [] f = "not_equal" -> c # 0 [] f = "less" -> c < 0
         [] f = "less_equal" -> c <= 0 [] f = "greater" -> c > 0 [] f = "greater_equal" -> c >= 0
LogV(f, a, b) == LET x == Truthy(a) y == Truthy(b) IN
  CASE f = "logical_and" -> x /\ y [] f = "logical_or" -> x \/ y [] f = "logical_xor" -> x # y
\* |a - b| <= atol + rtol * |b|
CloseV(a, b, rtol, atol, eqnan) ==
  IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b) /\ eqnan = 1
  ELSE IF IsInf(a) \/ IsInf(b) THEN a = b
  ELSE FCmp(FAbs(FSub(Z(a), Z(b))), FAdd(atol, FMul(rtol, FAbs(Z(b))))) <= 0

BinType(f, a, b) ==
  CASE f \in CmpF \cup LogF -> "bool"
    [] f = "divide" -> DivType(a, b)
    [] OTHER -> Promote(a, b)
BinOK(f, d) ==                 \* dtypes a function is defined on
  CASE f \in {"bitwise_and", "bitwise_or", "bitwise_xor"} -> Kind(d) \in {"b", "i", "u"}
    [] f \in {"left_shift", "right_shift", "gcd", "lcm"} -> Kind(d) \in {"i", "u"}
    [] OTHER -> TRUE
BinApply(f, A, Bx, p) ==
  LET bs == BcastAll(<<A.s, Bx.s>>) IN
  IF ~bs[1] THEN Err
  ELSE IF f \in CmpF THEN Ok1(Zip2(A, Bx, bs[2], "bool", LAMBDA x, y : Bool(CmpV(f, x, y))))
  ELSE IF f \in LogF THEN Ok1(Zip2(A, Bx, bs[2], "bool", LAMBDA x, y : Bool(LogV(f, x, y))))
  ELSE IF f = "isclose" THEN Ok1(Zip2(A, Bx, bs[2], "bool", LAMBDA x, y : Bool(CloseV(x, y, p.rtol, p.atol, p.eqnan))))
  ELSE LET d == BinType(f, A.d, Bx.d)
           nz(v) == IF p.sz = 1 THEN v ELSE ZC(v)
       IN IF ~BinOK(f, Promote(A.d, Bx.d)) THEN Err
          ELSE Ok1(Zip2(Cast1(A, d), IF f = "power" THEN Bx ELSE Cast1(Bx, d), bs[2], d, LAMBDA x, y : nz(Bin(f, d, x, y))))

(* --------------------------------- unary --------------------------------- *)
Isqrt(n) == CHOOSE k \in 0..300 : k * k = n   \* perfect squares only
RECURSIVE Log2I(_)
Log2I(n) == IF n = 1 THEN 0 ELSE 1 + Log2I(n \div 2)
UnFloat(f, a) ==
  CASE f = "negative" -> SNeg(a)
    [] f \in {"positive", "conj"} -> a
    [] f \in {"absolute", "fabs"} -> IF IsNaN(a) THEN NaN ELSE IF NegSign(a) THEN SNeg(a) ELSE a
    [] f = "sign" -> IF IsNaN(a) THEN NaN ELSE IF IsZ(a) THEN Zero ELSE <<Sgn(a), 1>>
    [] f = "square" -> SMul(a, a)
    [] f = "reciprocal" -> SDiv(One, a)
    [] f = "sqrt" -> IF IsNaN(a) \/ Sgn(a) < 0 THEN NaN ELSE IF IsInf(a) \/ IsZ(a) THEN a
                     ELSE <<Isqrt(a[1]), Isqrt(a[2])>>
    [] f \in {"floor", "ceil", "trunc", "fix", "rint", "round"} ->
         IF IsNaN(a) \/ IsInf(a) \/ IsZ(a) THEN a
         ELSE LET r == CASE f = "floor" -> FFloor(a) [] f = "ceil" -> FCeil(a)
                         [] f \in {"trunc", "fix"} -> FTrunc(a)
                         [] f \in {"rint", "round"} -> FRoundEven(a)
              IN IF IsZ(r) THEN SignedZero(Sgn(a) < 0) ELSE r
    [] f = "exp2" -> IF IsNaN(a) THEN NaN ELSE IF a = PInf THEN PInf ELSE IF a = NInf THEN Zero
                     ELSE IF Sgn(a) >= 0 THEN <<Pow2(a[1]), 1>> ELSE <<1, Pow2(-a[1])>>
    [] f = "log2" -> IF IsNaN(a) \/ Sgn(a) < 0 THEN NaN ELSE IF a = PInf THEN PInf ELSE IF IsZ(a) THEN NInf
                     ELSE <<Log2I(a[1]) - Log2I(a[2]), 1>>
UnInt(f, d, a) ==
  CASE f = "negative" -> Neg(d, a)
    [] f \in {"positive", "conj", "floor", "ceil", "trunc", "fix", "rint", "round"} -> a
    [] f \in {"absolute", "fabs"} -> Wrap(d, IntAbs(a))
    [] f = "sign" -> <<Sgn(a), 1>>
    [] f = "square" -> Wrap(d, IntMul(a, a))
    [] f = "invert" -> Wrap(d, IntSub(<<-1, 1>>, a))
UnCx(f, a) ==
  CASE f = "negative" -> CNeg(a)
    [] f = "positive" -> a
    [] f = "square" -> CMul(a, a)
    [] f = "conj" -> CConj(a)
PredF == {"isnan", "isinf", "isfinite", "signbit", "isneginf", "isposinf", "logical_not", "isreal", "iscomplex"}
CInf(v) == \/ IsInf(Re(v)) \/ IsInf(Im(v))
PredV(f, d, a) ==
  CASE f = "isnan" -> IsNaN(a)
    [] f = "isinf" -> CInf(a)
    [] f = "isfinite" -> ~IsNaN(a) /\ ~CInf(a)
    [] f = "signbit" -> ~IsNaN(a) /\ NegSign(a)
    [] f = "isneginf" -> a = NInf
    [] f = "isposinf" -> a = PInf
    [] f = "logical_not" -> ~Truthy(a)
    [] f = "isreal" -> IsZ(Im(a))
    [] f = "iscomplex" -> ~IsZ(Im(a))
FloatF == {"sqrt", "log2"}     \* float valued on integers
UnApply(f, A, p) ==
  LET nz(v) == IF p.sz = 1 THEN v ELSE ZC(v) IN
  IF f \in PredF THEN Ok1(Map(A, "bool", LAMBDA x : Bool(PredV(f, A.d, x))))
  ELSE IF f = "invert" /\ A.d = "bool" THEN Ok1(Map(A, "bool", LAMBDA x : Bool(~Truthy(x))))
  ELSE IF f = "invert" /\ Kind(A.d) \notin {"i", "u"} THEN Err
  ELSE IF f = "real" THEN
    IF Kind(A.d) = "c" THEN Ok1(Map(A, IF A.d = "complex128" THEN "float64" ELSE "float32", Re)) ELSE Ok1(A)
  ELSE IF f = "imag" THEN
    IF Kind(A.d) = "c" THEN Ok1(Map(A, IF A.d = "complex128" THEN "float64" ELSE "float32", Im)) ELSE Ok1(Map(A, A.d, LAMBDA x : Zero))
  ELSE LET d == IF f \in FloatF THEN FloatResult(A.d) ELSE A.d
           C == Cast1(A, d)
       IN Ok1(Map(C, d, LAMBDA x : nz(CASE Kind(d) = "f" -> UnFloat(f, x)
                                        [] Kind(d) \in {"i", "u"} -> UnInt(f, d, x)
                                        [] Kind(d) = "c" -> UnCx(f, x)
                                        [] Kind(d) = "b" -> x)))
Modf(A, p) ==
  LET nz(v) == IF p.sz = 1 THEN v ELSE Z(v)
      ip(a) == IF IsNaN(a) \/ IsInf(a) \/ IsZ(a) THEN a ELSE LET r == FTrunc(a) IN IF IsZ(r) THEN SignedZero(Sgn(a) < 0) ELSE r
      fp(a) == IF IsNaN(a) THEN NaN ELSE IF IsInf(a) \/ IsZ(a) THEN SignedZero(NegSign(a))
               ELSE LET r == FSub(a, FTrunc(a)) IN IF IsZ(r) THEN SignedZero(Sgn(a) < 0) ELSE r
  IN Ok(<<RA(Map(A, A.d, LAMBDA x : nz(fp(x)))), RA(Map(A, A.d, LAMBDA x : nz(ip(x))))>>)
NanToNum(A, p) ==
  Ok1(Map(A, A.d, LAMBDA x : IF IsNaN(x) THEN p.nan ELSE IF x = PInf THEN p.pinf ELSE IF x = NInf THEN p.ninf ELSE x))
\* clip with scalar bounds (either may be absent)
ClipV(x, p) ==
  IF IsNaN(x) THEN NaN
  ELSE LET y == IF p.hlo = 1 /\ FCmp(Z(x), p.lo) < 0 THEN p.lo ELSE x
       IN IF p.hhi = 1 /\ FCmp(Z(y), p.hi) > 0 THEN p.hi ELSE y

(* ------------------------- points of special functions ------------------- *)
\* Points at which the elementary functions are exact: special values, fixed
\* points, poles and the outside of the domain.
OddF == {"sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arcsinh", "arctanh", "cbrt", "expm1", "log1p", "deg2rad", "rad2deg"}
TransV(f, a) ==
  IF IsNaN(a) THEN NaN
  ELSE IF IsZ(a) THEN
    (CASE f \in OddF -> a [] f \in {"exp", "cos", "cosh", "sinc"} -> One
       [] f \in {"log", "log10"} -> NInf [] f = "arccosh" -> NaN)
  ELSE IF IsInf(a) THEN
    (CASE f \in {"sinh", "arcsinh", "cbrt", "deg2rad", "rad2deg"} -> a
       [] f = "tanh" -> <<Sgn(a), 1>> [] f = "cosh" -> PInf
       [] f = "exp" -> (IF Sgn(a) > 0 THEN PInf ELSE Zero)
       [] f = "expm1" -> (IF Sgn(a) > 0 THEN PInf ELSE <<-1, 1>>)
       [] f \in {"log", "log10", "log1p", "arccosh"} -> (IF Sgn(a) > 0 THEN PInf ELSE NaN)
       [] OTHER -> NaN)
  ELSE CASE f = "cbrt" -> <<CHOOSE k \in -5..5 : k * k * k = a[1], 1>>
         [] f \in {"log", "arccosh", "arccos"} /\ a = One -> Zero
         [] f = "log10" /\ Sgn(a) > 0 -> <<CHOOSE k \in 0..2 : 10 ^ k = a[1], 1>>
         [] f = "arctanh" /\ FAbs(a) = One -> <<Sgn(a), 0>>
         [] f = "log1p" /\ a = <<-1, 1>> -> NInf
         [] OTHER -> NaN               \* outside the domain
\* binary ones: |(a, b)|, log(e^a + e^b) and the argument of b + ia
HypotV(a, b) ==
  IF IsInf(a) \/ IsInf(b) THEN PInf ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE LET q == FAdd(FMul(Z(a), Z(a)), FMul(Z(b), Z(b))) IN <<Isqrt(q[1]), Isqrt(q[2])>>
LogAddV(a, b) ==               \* one of them infinite or NaN
  IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF a = PInf \/ b = PInf THEN PInf
  ELSE IF a = NInf THEN Z(b) ELSE Z(a)
ArgV(a, b) ==                  \* b positive, a = 0 or b infinite
  IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE SignedZero(NegSign(a))
TransBin(f, a, b) == CASE f = "hypot" -> HypotV(a, b) [] f = "arctan2" -> ArgV(a, b) [] OTHER -> LogAddV(a, b)
\* binary exponent: 2^e <= |a| < 2^(e+1)
RECURSIVE Expo(_)
Expo(a) == IF a[1] >= 2 * a[2] THEN 1 + Expo(Rat(a[1], 2 * a[2])) ELSE IF a[1] < a[2] THEN Expo(Rat(2 * a[1], a[2])) - 1 ELSE 0
Two(k) == IF k >= 0 THEN <<Pow2(k), 1>> ELSE <<1, Pow2(-k)>>
\* distance from a to its neighbour in the direction of b, in units of 2^-p for
\* p bits of precision (of the smallest positive number when a is zero)
NextUnits(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF FCmp(Z(a), Z(b)) = 0 THEN Zero
  ELSE LET up == FCmp(Z(a), Z(b)) < 0 sg == IF up THEN One ELSE <<-1, 1>> IN
       IF IsInf(a) THEN FNeg(a)
       ELSE IF IsZ(a) THEN sg
       ELSE LET m == FAbs(a) e == Expo(m)
                down == (Sgn(a) > 0) # up     \* toward zero
            IN FMul(sg, Two(IF down /\ m = Two(e) THEN e - 1 ELSE e))
SpacingUnits(a) ==
  IF IsNaN(a) \/ IsInf(a) THEN NaN ELSE IF IsZ(a) THEN One ELSE FMul(<<Sgn(a), 1>>, Two(Expo(FAbs(a))))
\* a = mantissa * 2^exponent with mantissa in [1/2, 1)
\* (the operand is 2^k times the given values, possibly below the normal range)
Frexp(A, k) ==
  LET sp(a) == IsNaN(a) \/ IsInf(a) \/ IsZ(a)
      ex(a) == Expo(FAbs(a)) + 1
  IN Ok(<<RA(Map(A, A.d, LAMBDA a : IF sp(a) THEN a ELSE FMul(a, Two(-ex(a))))),
          RA(Map(A, "int32", LAMBDA a : IF sp(a) THEN Zero ELSE <<ex(a) + k, 1>>))>>)
\* scaling by 2^k1 and then by 2^k2, in a format with exponents lo .. hi: the
\* first step overflows, vanishes or is exact, the second returns near one
LdexpV(a, k1, k2, lo, hi) ==
  IF IsNaN(a) \/ IsInf(a) \/ IsZ(a) THEN a
  ELSE LET e == Expo(FAbs(a)) + k1 IN
       IF e > hi THEN <<Sgn(a), 0>> ELSE IF e < lo THEN SignedZero(Sgn(a) < 0)
       ELSE FMul(a, Two(k1 + k2))
FloatHi(d) == IF d = "float32" THEN 127 ELSE 1023
FloatLo(d) == IF d = "float32" THEN -151 ELSE -1076
SpecialApply(e, A) ==
  LET p == e.p
      two(dt, G(_, _)) == LET bs == BcastAll(<<A[1].s, A[2].s>>) IN
                          IF ~bs[1] THEN Err ELSE Ok1(Zip2(A[1], A[2], bs[2], dt, G))
  IN CASE e.op = "trans" -> Ok1(Map(A[1], A[1].d, LAMBDA a : TransV(p.f, a)))
       [] e.op = "trans2" -> two(A[1].d, LAMBDA a, b : TransBin(p.f, a, b))
       [] e.op = "nextafter" -> two("float64", NextUnits)
       [] e.op = "spacing" -> Ok1(Map(A[1], "float64", SpacingUnits))
       [] e.op = "frexp" -> Frexp(A[1], p.k)
       [] e.op = "ldexp" -> Ok1(Map(A[1], A[1].d, LAMBDA a : LdexpV(a, p.k1, p.k2, FloatLo(A[1].d), FloatHi(A[1].d))))

(* --------------------------- questions about dtypes ---------------------- *)
\* kinds form the chain bool < unsigned < signed < float < complex
KindRank(d) == CASE Kind(d) = "b" -> 0 [] Kind(d) = "u" -> 1 [] Kind(d) = "i" -> 2 [] Kind(d) = "f" -> 3 [] Kind(d) = "c" -> 4
\* a cast is safe exactly when the target absorbs the source in the promotion lattice
CanCast(a, b, c) ==
  CASE c \in {"no", "equiv"} -> a = b
    [] c = "safe" -> Promote(a, b) = b
    [] c = "same_kind" -> Promote(a, b) = b \/ KindRank(a) <= KindRank(b)
    [] c = "unsafe" -> TRUE
CatKinds(c) ==          \* kinds below a category of dtypes
  CASE c = "generic" -> {"b", "u", "i", "f", "c"} [] c \in {"number", "numeric"} -> {"u", "i", "f", "c"}
    [] c \in {"integer", "integral"} -> {"u", "i"} [] c \in {"signedinteger", "signed integer"} -> {"i"}
    [] c \in {"unsignedinteger", "unsigned integer"} -> {"u"} [] c = "inexact" -> {"f", "c"}
    [] c \in {"floating", "real floating"} -> {"f"} [] c \in {"complexfloating", "complex floating"} -> {"c"}
    [] c \in {"bool", "bool_"} -> {"b"} [] OTHER -> {}
\* dtype of several operands: inexact ones absorb the integers one by one, in any order
JoinAll(q) ==
  LET inex == SelectSeq(q, LAMBDA d : Kind(d) \in {"f", "c"}) ex == SelectSeq(q, LAMBDA d : Kind(d) \notin {"f", "c"})
      all == inex \o ex
  IN Fold(Promote, all[1], Tail(all))
\* smallest inexact dtype for computing with all of them; integers count as double
CommonT(q) ==
  LET w == Fold(MaxI, 16, [i \in 1..Len(q) |-> IF Kind(q[i]) \in {"f", "c"} THEN FW(q[i]) ELSE 64])
  IN IF \E i \in 1..Len(q) : Kind(q[i]) = "c" THEN (IF w = 64 THEN "complex128" ELSE "complex64") ELSE FloatOfWidth(w)
DtypeArr(d) == Arr(<<>>, d, <<IF Kind(d) = "c" THEN Cx(Zero, Zero) ELSE Zero>>)
DtQuery(p) ==
  CASE p.q = "can_cast" -> OkS(Bool(CanCast(p.d1, p.d2, p.c)))
    [] p.q = "issubdtype" -> OkS(Bool(Kind(p.d1) \in CatKinds(p.c)))
    [] p.q = "isdtype" -> OkS(Bool(\E i \in 1..Len(p.c) : Kind(p.d1) \in CatKinds(p.c[i])))
    [] p.q = "result_type" -> Ok1(DtypeArr(JoinAll(p.ds)))
    [] p.q = "common_type" -> Ok1(DtypeArr(CommonT(p.ds)))
SpecialOps == {"trans", "trans2", "nextafter", "spacing", "frexp", "ldexp"}
ElemOps == SpecialOps \cup {"dtq", "bin", "un", "modf", "nan_to_num", "clip", "divmod", "promote", "array_equal", "allclose", "binsc", "broadcast_shapes", "where3"}
\* x op scalar / scalar op x: the Python number takes the dtype of the array
ScApply(p, A) ==
  LET S == Arr(<<>>, A.d, <<p.v>>) IN
  IF p.left = 1 THEN BinApply(p.f, S, A, p) ELSE BinApply(p.f, A, S, p)
ElemApply(e, A) ==
  LET p == e.p IN
  CASE e.op = "bin" -> BinApply(p.f, A[1], A[2], p)
    [] e.op = "binsc" -> ScApply(p, A[1])
    [] e.op = "un" -> UnApply(p.f, A[1], p)
    [] e.op = "modf" -> Modf(A[1], p)
    [] e.op \in SpecialOps -> SpecialApply(e, A)
    [] e.op = "nan_to_num" -> NanToNum(A[1], p)
    [] e.op = "clip" -> Ok1(Map(A[1], A[1].d, LAMBDA x : ClipV(x, p)))
    [] e.op = "divmod" ->
         LET q == BinApply("floor_divide", A[1], A[2], p) r == BinApply("remainder", A[1], A[2], p)
         IN IF q.err # "" THEN q ELSE Ok(q.res \o r.res)
    [] e.op = "dtq" -> DtQuery(p)
    [] e.op = "promote" -> Ok1(Arr(<<>>, Promote(p.d1, p.d2), <<IF Kind(Promote(p.d1, p.d2)) = "c" THEN Cx(Zero, Zero) ELSE Zero>>))
    [] e.op = "array_equal" -> OkS(Bool(A[1].s = A[2].s /\ \A k \in 1..Len(A[1].v) : CmpV("equal", A[1].v[k], A[2].v[k])))
    [] e.op = "broadcast_shapes" ->
         LET bs == BcastAll(p.ss) IN
         IF bs[1] THEN Ok1(Arr(<<Len(bs[2])>>, "py", [i \in 1..Len(bs[2]) |-> I(bs[2][i])])) ELSE Err
    [] e.op = "where3" ->
         LET bs == BcastAll(<<A[1].s, A[2].s, A[3].s>>) IN
         IF ~bs[1] THEN Err
         ELSE LET d == Promote(A[2].d, A[3].d)
                  x == TLCEval(BcastTo(Cast1(A[2], d), bs[2])) y == TLCEval(BcastTo(Cast1(A[3], d), bs[2])) c == TLCEval(BcastTo(A[1], bs[2]))
              IN Ok1(Arr(bs[2], d, [k \in 1..Size(bs[2]) |-> IF Truthy(c.v[k]) THEN x.v[k] ELSE y.v[k]]))
    [] e.op = "allclose" ->
         LET r == BinApply("isclose", A[1], A[2], p) IN
         IF r.err # "" THEN r ELSE OkS(Bool(\A k \in 1..Len(r.res[1].a.v) : r.res[1].a.v[k] = One))
=============================================================================
