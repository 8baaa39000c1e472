------------------------------- MODULE Convert ------------------------------
(* Conversion between dtypes, from and to Python objects, NumPy arrays and  *)
(* raw bytes.                                                                *)
EXTENDS Contract

\* ---- rounding of integers to a float dtype: nearest, ties to even ----
Mantissa(d) == CASE d = "float16" -> 11 [] d \in {"float32", "complex64"} -> 24 [] OTHER -> 53
RECURSIVE TopBit(_, _)
TopBit(m, k) == IF k < 0 THEN -1 ELSE IF MagBit(m, k) = 1 THEN k ELSE TopBit(m, k - 1)
RoundMag(m, p) ==
  LET k == TopBit(m, 69) - (p - 1) IN       \* low bits to drop
  IF k <= 0 THEN m
  ELSE LET qr == TLCEval(MagDivMod(m, MagPow2(k)))
           c == MagCmp(qr[2], MagPow2(k - 1))
           up == c > 0 \/ (c = 0 /\ MagBit(qr[1], 0) = 1)
       IN MagMul(IF up THEN MagAdd(qr[1], MagOfInt(1)) ELSE qr[1], MagPow2(k))
RoundTo(v, d) ==
  IF Len(v) = 2 /\ AbsI(v[1]) <= 2048 THEN v
  ELSE IF d = "float16" /\ IsIntVal(v) /\ IntCmp(IntAbs(v), I(65520)) >= 0 THEN <<Sgn(v), 0>>
  ELSE IF IsIntVal(v) THEN FromMag(Sgn(v), RoundMag(Mag(v), Mantissa(d)))
  ELSE IF Frac(v) THEN LET w == FromMag(Sgn(v), RoundMag(MagOfInt(AbsI(v[1])), Mantissa(d))) IN Rat(w[1], v[2])
  ELSE v
CastR(v, src, dst) ==
  CASE Kind(dst) = "f" -> RoundTo(Cast(v, src, dst), dst)
    [] Kind(dst) = "c" -> LET w == Cast(v, src, dst) IN Cx(RoundTo(Re(w), dst), RoundTo(Im(w), dst))
    [] OTHER -> Cast(v, src, dst)
CastArr(A, d) == Arr(A.s, d, [i \in 1..Len(A.v) |-> CastR(A.v[i], A.d, d)])

\* ---- bytes of the fixed-width integer dtypes, little endian ----
Bytes(v, w) ==                 \* the w/8 bytes of v
  LET m == Twos(v, w) IN
  [i \in 1..(w \div 8) |-> LET k == 8 * (i - 1)
                               RECURSIVE go(_, _)
                               go(j, s) == IF j > 7 THEN s ELSE go(j + 1, s + Pow2(j) * MagBit(m, k + j))
                           IN go(0, 0)]
OfBytes(bs, w, signed) ==      \* the value of w/8 bytes
  LET RECURSIVE go(_, _)
      go(i, m) == IF i = 0 THEN m ELSE go(i - 1, TLCEval(MagAdd(MagMul(m, MagOfInt(256)), MagOfInt(bs[i]))))
  IN FromTwos(go(w \div 8, MagZero), w, signed)
AllBytes(A) == LET n == Width(A.d) \div 8
                   c == [i \in 1..Len(A.v) |-> TLCEval(Bytes(A.v[i], Width(A.d)))] IN
  [k \in 1..(n * Len(A.v)) |-> c[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
FromBytes(bs, d) == LET n == Width(d) \div 8 IN
  [i \in 1..(Len(bs) \div n) |-> OfBytes(SubSeq(bs, n * (i - 1) + 1, n * i), Width(d), Kind(d) = "i")]

ListDtype(k) == IF k = <<>> THEN "float64"
                ELSE IF \E i \in 1..Len(k) : k[i] = "f" THEN "float64"
                ELSE IF \E i \in 1..Len(k) : k[i] = "i" THEN "int64" ELSE "bool"
KindT(k) == CASE k = "f" -> "float64" [] k = "i" -> "int64" [] k = "b" -> "bool"

ConvertOps == {"astype", "asarray_np", "fromlist", "scalar", "bview", "frombuffer", "order", "roundtrip"}
ROk(A) == [err |-> "", res |-> <<[t |-> "arr", a |-> A]>>]
RSca(v) == [err |-> "", res |-> <<[t |-> "sc", v |-> v]>>]
CErr == [err |-> "E", res |-> <<>>]
AtMostOneLong(s) == \A i, j \in 1..Len(s) : i # j => (s[i] <= 1 \/ s[j] <= 1)
ConvertApply(e, A) ==
  LET p == e.p op == e.op IN
  CASE op = "astype" -> ROk(CastArr(A[1], p.d))
    [] op = "asarray_np" -> LET X == Arr(p.s, p.d, p.v) IN ROk(IF p.to = "" THEN X ELSE CastArr(X, p.to))
    [] op = "fromlist" ->
         IF p.ragged = 1 THEN CErr
         ELSE LET d == IF p.to = "" THEN ListDtype(p.kd) ELSE p.to
              IN ROk(Arr(p.s, d, [i \in 1..Len(p.v) |-> CastR(p.v[i], KindT(p.kd[i]), d)]))
    [] op = "scalar" ->
         IF Len(A[1].v) # 1 THEN CErr
         ELSE LET v == A[1].v[1] IN
             (CASE p.f = "item" -> RSca(v)
                [] p.f = "int" -> IF IsCx(v) \/ ~IsFinite(v) THEN CErr ELSE RSca(FTrunc(v))
                [] p.f = "float" -> IF IsCx(v) THEN CErr ELSE RSca(CastR(v, A[1].d, "float64"))
                [] p.f = "complex" -> RSca(CastR(v, A[1].d, "complex128"))
                [] p.f = "bool" -> RSca(Bool(Truthy(v))))
    \* reinterpretation of the bytes of a contiguous array of integers
    [] op = "bview" ->
         LET n == Len(A[1].s) IN
         IF n = 0 \/ p.contig = 0 THEN CErr
         ELSE LET wb == (A[1].s[n] * Width(A[1].d)) IN
              IF wb % Width(p.d) # 0 THEN CErr
              ELSE ROk(Arr([A[1].s EXCEPT ![n] = wb \div Width(p.d)], p.d, FromBytes(AllBytes(A[1]), p.d)))
    [] op = "frombuffer" ->
         LET n == Width(p.d) \div 8
             av == Len(p.b) - p.off
         IN IF av < 0 THEN CErr
            ELSE IF p.count < 0 /\ av % n # 0 THEN CErr
            ELSE LET m == IF p.count < 0 THEN av \div n ELSE p.count IN
                 IF m * n > av THEN CErr
                 ELSE ROk(Arr(<<m>>, p.d, FromBytes(SubSeq(p.b, p.off + 1, p.off + m * n), p.d)))
    \* a contiguous copy or the array itself, and whether it reports the order asked for
    [] op = "order" ->
         LET R == IF p.to = "" THEN A[1] ELSE CastArr(A[1], p.to) IN
         [err |-> "", res |-> <<[t |-> "arr", a |-> R], [t |-> "sc", v |-> One]>>]
    \* out to another representation and back
    [] op = "roundtrip" -> ROk(A[1])
=============================================================================
