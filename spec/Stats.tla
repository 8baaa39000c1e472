------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Order statistics, histograms, covariance, convolution, interpolation,   *)
(* finite differences, integration and polynomials.  All operands are      *)
(* small rationals, so every result is an exact rational.                  *)
(***************************************************************************)
EXTENDS LinAlg

F64(s, v) == Arr(s, "float64", v)
Vec64(v) == Arr(<<Len(v)>>, "float64", v)

(* ------------------------- quantiles (linear) --------------------------- *)
\* p.q: sequence of probabilities; p.sc = 1: given as a scalar; p.nan = 1: NaN ignored
QtLane(p, k, q) == Quant(IF p.nan = 1 THEN NoNaN(q) ELSE q, p.q[k])
Quantiles(a, p) ==
  LET bad == \E k \in 1..Len(p.q) : Lt(p.q[k], Zero) \/ Lt(One, p.q[k])
      k == Len(p.q) IN
  IF bad \/ (p.none = 0 /\ p.axis >= Ndim(a)) THEN Err
  ELSE IF p.none = 1
  THEN IF Len(a.v) = 0 /\ p.nan = 0 THEN Err
       ELSE Ok1(F64(<<k>>, [i \in 1..k |-> QtLane(p, i, a.v)]))
  ELSE LET os == RemoveAt(a.s, p.axis + 1) IN
       IF a.s[p.axis + 1] = 0 /\ Size(os) > 0 /\ p.nan = 0 THEN Err
       ELSE LET R == [i \in 1..k |-> Wrap0(AlongDrop(a, p.axis, "float64", LAMBDA q : QtLane(p, i, q)))]
                fl == TLCEval([i \in 1..k |-> TLCEval(R[i].v)]) s == R[1].s IN
            IF p.sc = 1 THEN Ok1(R[1])
            ELSE Ok1(F64(<<k>> \o s, [j \in 1..(k * Size(s)) |-> fl[((j - 1) \div Size(s)) + 1][((j - 1) % Size(s)) + 1]]))

(* ------------------------------ histograms ------------------------------ *)
\* p.b: number of bins; p.r: <<lo, hi>> or <<>>
HRange(v, r) == LET lo == IF r # <<>> THEN r[1] ELSE IF v = <<>> THEN Zero ELSE MinV(v)
                    hi == IF r # <<>> THEN r[2] ELSE IF v = <<>> THEN One ELSE MaxV(v) IN
                IF lo = hi THEN <<FSub(lo, <<1, 2>>), FAdd(hi, <<1, 2>>)>> ELSE <<lo, hi>>
HBad(v, b, r) == \/ b = 0
                 \/ (r # <<>> /\ Lt(r[2], r[1]))
                 \/ (r = <<>> /\ \E i \in 1..Len(v) : IsNaN(v[i]) \/ IsInf(v[i]))
Edges(v, b, r) == LET h == HRange(v, r) w == FSub(h[2], h[1]) IN
                  TLCEval([i \in 1..(b + 1) |-> FAdd(h[1], FMul(w, FDiv(I(i - 1), I(b))))])
\* x lies in bin i: half-open intervals, the last one closed
InBin(e, i, x) == ~IsNaN(x) /\ Le(e[i], x) /\ (Lt(x, e[i + 1]) \/ (i = Len(e) - 1 /\ x = e[i + 1]))
CountIf(n, P(_)) == I(Cardinality({j \in 1..n : P(j)}))
\* d-dimensional histogram: smp[d] values of coordinate d, bs[d] bins, rs[d] ranges
HistN(smp, n, bs, rs, dens) ==
  LET D == Len(bs)
      E == TLCEval([d \in 1..D |-> Edges(smp[d], bs[d], rs[d])])
      cs == CStrides(bs)
      cnt == TLCEval([k \in 1..Size(bs) |-> LET u == TLCEval(Unravel(k - 1, bs, cs)) IN
               CountIf(n, LAMBDA j : \A d \in 1..D : InBin(E[d], u[d] + 1, smp[d][j]))])
      vol == Fold(FMul, One, TLCEval([d \in 1..D |-> FSub(E[d][2], E[d][1])]))
      tot == FSum(cnt)
  IN [h |-> F64(bs, IF dens = 1 /\ tot # Zero THEN [k \in 1..Len(cnt) |-> FDiv(cnt[k], FMul(tot, vol))] ELSE cnt),
      e |-> [d \in 1..D |-> Vec64(E[d])]]
Histogram(a, p) ==
  IF HBad(a.v, p.b, p.r) THEN Err
  ELSE LET H == HistN(<<a.v>>, Len(a.v), <<p.b>>, <<p.r>>, 0) IN
       IF p.edges = 1 THEN Ok1(H.e[1]) ELSE Ok(<<RA([H.h EXCEPT !.d = "int64"]), RA(H.e[1])>>)
Histogram2d(x, y, p) ==
  IF Len(x.v) # Len(y.v) \/ HBad(x.v, p.bs[1], p.rs[1]) \/ HBad(y.v, p.bs[2], p.rs[2]) THEN Err
  ELSE LET H == HistN(<<x.v, y.v>>, Len(x.v), p.bs, p.rs, p.dens) IN Ok(<<RA(H.h), RA(H.e[1]), RA(H.e[2])>>)
HistogramDd(a, p) ==
  LET D == IF Ndim(a) = 1 THEN 1 ELSE a.s[2]
      n == a.s[1]
      smp == TLCEval([d \in 1..D |-> [i \in 1..n |-> a.v[(i - 1) * D + d]]])
  IN IF Len(p.bs) # D \/ Len(p.rs) # D \/ (\E d \in 1..D : HBad(smp[d], p.bs[d], p.rs[d])) THEN Err
     ELSE LET H == HistN(smp, n, p.bs, p.rs, p.dens) IN Ok(<<RA(H.h)>> \o [d \in 1..D |-> RA(H.e[d])])
BinCount(a, p) ==
  IF Ndim(a) # 1 \/ Kind(a.d) \notin {"i", "u", "b"} \/ (\E i \in 1..Len(a.v) : Sgn(a.v[i]) < 0) THEN Err
  ELSE LET n == IF a.v = <<>> THEN p.ml ELSE MaxI(p.ml, MaxV(a.v)[1] + 1) IN
       Ok1(Arr(<<n>>, "int64", [k \in 1..n |-> CountIf(Len(a.v), LAMBDA j : a.v[j] = I(k - 1))]))

(* ------------------------------ covariance ------------------------------ *)
\* n^2 times the cross moment about the means
CrossM(x, y) == LET n == I(Len(x)) IN
  FSub(FMul(n, FSum([i \in 1..Len(x) |-> FMul(x[i], y[i])])), FMul(FSum(x), FSum(y)))
VarRows(a) == TLCEval([i \in 1..a.s[1] |-> TLCEval([j \in 1..a.s[2] |-> a.v[(i - 1) * a.s[2] + j]])])
Cov(a, p) ==
  LET A2 == IF Ndim(a) = 1 THEN Reshape(a, <<1, a.s[1]>>) ELSE a IN
  IF Ndim(a) \notin {1, 2} THEN Err
  ELSE LET r == VarRows(A2) k == A2.s[1] n == A2.s[2]
           c(i, j) == IF n <= p.ddof THEN NaN ELSE FDiv(CrossM(r[i], r[j]), I(n * (n - p.ddof)))
       IN Ok1(F64(IF Ndim(a) = 1 THEN <<1>> ELSE <<k, k>>, [q \in 1..(k * k) |-> c(((q - 1) \div k) + 1, ((q - 1) % k) + 1)]))
\* correlations, observed as their signed squares
CorrSq(a) ==
  LET A2 == IF Ndim(a) = 1 THEN Reshape(a, <<1, a.s[1]>>) ELSE a IN
  IF Ndim(a) \notin {1, 2} THEN Err
  ELSE LET r == VarRows(A2) k == A2.s[1]
           m == TLCEval([i \in 1..k |-> TLCEval([j \in 1..k |-> CrossM(r[i], r[j])])])
           c(i, j) == FDiv(FMul(FDiv(m[i][j], m[i][i]), FAbs(m[i][j])), m[j][j])
       IN Ok1(F64(<<k, k>>, [q \in 1..(k * k) |-> c(((q - 1) \div k) + 1, ((q - 1) % k) + 1)]))

(* --------------------- convolution and interpolation -------------------- *)
FullConv(x, y) ==
  [k \in 1..(Len(x) + Len(y) - 1) |->
     FSum([j \in 1..(MinI(k, Len(x)) - MaxI(1, k + 1 - Len(y)) + 1) |->
        LET i == MaxI(1, k + 1 - Len(y)) + j - 1 IN FMul(x[i], y[k + 1 - i])])]
ConvPart(c, n, m, mode) ==       \* n >= m
  CASE mode = "full" -> c
    [] mode = "same" -> SubSeq(c, ((m - 1) \div 2) + 1, ((m - 1) \div 2) + n)
    [] mode = "valid" -> SubSeq(c, m, n)
RECURSIVE Correl(_, _, _)
Correl(x, y, mode) == IF Len(x) >= Len(y) THEN ConvPart(FullConv(x, Rev(y)), Len(x), Len(y), mode)
                      ELSE Rev(Correl(y, x, mode))
Convol(x, y, mode) == IF Len(x) >= Len(y) THEN ConvPart(FullConv(x, y), Len(x), Len(y), mode)
                      ELSE ConvPart(FullConv(y, x), Len(y), Len(x), mode)
ConvApply(x, y, p) ==
  IF Ndim(x) # 1 \/ Ndim(y) # 1 \/ Len(x.v) = 0 \/ Len(y.v) = 0 \/ p.mode \notin {"full", "same", "valid"} THEN Err
  ELSE Ok1(Vec64(IF p.f = "convolve" THEN Convol(x.v, y.v, p.mode) ELSE Correl(x.v, y.v, p.mode)))
Interp1(x, xp, fp, p) ==
  LET n == Len(xp) IN
  IF IsNaN(x) THEN NaN
  ELSE IF Lt(x, xp[1]) THEN (IF p.l # <<>> THEN p.l ELSE fp[1])
  ELSE IF Lt(xp[n], x) THEN (IF p.r # <<>> THEN p.r ELSE fp[n])
  ELSE IF x = xp[n] THEN fp[n]
  ELSE LET i == CHOOSE i \in 1..(n - 1) : Le(xp[i], x) /\ Lt(x, xp[i + 1]) IN
       FAdd(fp[i], FMul(FSub(fp[i + 1], fp[i]), FDiv(FSub(x, xp[i]), FSub(xp[i + 1], xp[i]))))
InterpApply(x, xp, fp, p) ==
  IF Ndim(xp) # 1 \/ Ndim(fp) # 1 \/ Len(xp.v) # Len(fp.v) \/ xp.v = <<>> THEN Err
  ELSE Ok1(F64(x.s, [i \in 1..Len(x.v) |-> Interp1(x.v[i], xp.v, fp.v, p)]))

(* ------------------ finite differences and integration ------------------ *)
\* slope at x[i] of the parabola through three neighbouring samples
Slope3(q, x, i) ==
  LET d1 == FSub(x[i], x[i - 1]) d2 == FSub(x[i + 1], x[i])
      s1 == FDiv(FSub(q[i], q[i - 1]), d1) s2 == FDiv(FSub(q[i + 1], q[i]), d2)
  IN FDiv(FAdd(FMul(s1, d2), FMul(s2, d1)), FAdd(d1, d2))
GradX(q, x) ==
  LET n == Len(q) IN
  [i \in 1..n |-> IF i = 1 THEN FDiv(FSub(q[2], q[1]), FSub(x[2], x[1]))
                  ELSE IF i = n THEN FDiv(FSub(q[n], q[n - 1]), FSub(x[n], x[n - 1]))
                  ELSE Slope3(q, x, i)]
\* p.axis = <<>>: along every axis (one result each), else along p.axis[1]
GradApply(X, p) ==
  LET a == X[1] n == Ndim(a)
      axs == IF p.axis # <<>> THEN p.axis ELSE IF Len(X) = 2 THEN <<0>> ELSE [i \in 1..n |-> i - 1] IN
  IF (\E i \in 1..Len(axs) : ~AxisOK(axs[i], n)) \/ (\E i \in 1..n : a.s[i] < 2) THEN Err
  ELSE IF Len(X) = 2 /\ X[2].s # <<a.s[NormAxis(axs[1], n) + 1]>> THEN Err
  ELSE Ok([i \in 1..Len(axs) |-> RA(LET ax == NormAxis(axs[i], n) IN
            IF Len(X) = 2 THEN AlongMap(a, ax, a.s[ax + 1], "float64", LAMBDA q : GradX(q, X[2].v))
            ELSE GradAx(a, ax, p.h))])
TrapzX(X, p) ==
  LET a == X[1] IN
  IF ~AxisOK(p.axis, Ndim(a)) THEN Err
  ELSE LET ax == NormAxis(p.axis, Ndim(a)) IN
       IF X[2].s # <<a.s[ax + 1]>> THEN Err
       ELSE Ok1(Wrap0(AlongDrop(a, ax, "float64", LAMBDA q :
              FSum([i \in 1..(Len(q) - 1) |-> FMul(FSub(X[2].v[i + 1], X[2].v[i]), FDiv(FAdd(q[i], q[i + 1]), I(2)))]))))

(* ------------------------------ polynomials ----------------------------- *)
\* coefficients, highest degree first
PolyAt(c, x) == FSum([i \in 1..Len(c) |-> FMul(c[i], PowV(x, Len(c) - i))])
RECURSIVE PolyD(_, _)
PolyD(c, m) == IF m = 0 THEN c ELSE IF Len(c) <= 1 THEN <<>>
               ELSE PolyD([i \in 1..(Len(c) - 1) |-> FMul(c[i], I(Len(c) - i))], m - 1)
RECURSIVE PolyI(_, _)
PolyI(c, ks) == IF ks = <<>> THEN c
                ELSE PolyI([i \in 1..Len(c) |-> FDiv(c[i], I(Len(c) - i + 1))] \o <<ks[1]>>, Tail(ks))
PolyApply(X, p) ==
  CASE p.f = "polyval" -> Ok1(F64(X[2].s, [i \in 1..Len(X[2].v) |-> PolyAt(X[1].v, X[2].v[i])]))
    [] p.f = "polyder" -> Ok1(IF p.m = 0 THEN X[1] ELSE Vec64(PolyD(X[1].v, p.m)))
    [] p.f = "polyint" ->
         LET ks == IF Len(X) = 1 THEN [i \in 1..p.m |-> Zero]
                   ELSE IF Len(X[2].v) = 1 THEN [i \in 1..p.m |-> X[2].v[1]] ELSE X[2].v IN
         Ok1(IF p.m = 0 THEN X[1] ELSE Vec64(PolyI(X[1].v, ks)))

StatApply(X, p) ==
  CASE p.f = "quantile" -> Quantiles(X[1], p)
    [] p.f = "histogram" -> Histogram(X[1], p)
    [] p.f = "histogram2d" -> Histogram2d(X[1], X[2], p)
    [] p.f = "histogramdd" -> HistogramDd(X[1], p)
    [] p.f = "bincount" -> BinCount(X[1], p)
    [] p.f = "cov" -> Cov(X[1], p)
    [] p.f = "corrcoef" -> CorrSq(X[1])
    [] p.f \in {"convolve", "correlate"} -> ConvApply(X[1], X[2], p)
    [] p.f = "interp" -> InterpApply(X[1], X[2], X[3], p)
    [] p.f = "gradient" -> GradApply(X, p)
    [] p.f = "trapezoid" -> TrapzX(X, p)
    [] p.f \in {"polyval", "polyder", "polyint"} -> PolyApply(X, p)

(* -------------- results given by the equations they satisfy -------------- *)
\* least-squares polynomial: the weighted residuals are orthogonal to the
\* weighted powers; p.den is a common denominator of the coefficients
FitPre(X, p) == Len(X[1].v) = Len(X[2].v) /\ p.deg < Len(X[1].v) /\ (Len(X) = 3 => Len(X[3].v) = Len(X[1].v))
FitPost(X, p, r) ==
  LET x == FlatI(X[1]) y == FlatI(X[2]) n == Len(x)
      w == IF Len(X) = 3 THEN FlatI(X[3]) ELSE [i \in 1..n |-> 1]
      pw(i, k) == IF k = 0 THEN 1 ELSE x[i] ^ k
      c == TLCEval([k \in 1..(p.deg + 1) |-> r.v[k][1] * (p.den \div r.v[k][2])])
      res == TLCEval([i \in 1..n |-> p.den * y[i] - SumI(TLCEval([k \in 1..(p.deg + 1) |-> c[k] * pw(i, p.deg + 1 - k)]))])
  IN /\ r.s = <<p.deg + 1>> /\ r.d = "float64" /\ Scalable(r, p.den)
     /\ \A k \in 0..p.deg : SumI(TLCEval([i \in 1..n |-> w[i] * w[i] * pw(i, k) * res[i]])) = 0
\* roots: p.w are the roots (complex values), shown to be so by expanding the product
RECURSIVE Expand(_, _)
Expand(c, ws) == IF ws = <<>> THEN c
  ELSE Expand([i \in 1..(Len(c) + 1) |->
         CSub(IF i <= Len(c) THEN c[i] ELSE Cx(Zero, Zero),
              CMul(ws[1], IF i > 1 THEN c[i - 1] ELSE Cx(Zero, Zero)))], Tail(ws))
LeadNZ(v) == LET k == SelectIdx(v, LAMBDA i : v[i] # Zero) IN IF k = <<>> THEN <<>> ELSE SubSeq(v, k[1], Len(v))
RootPre(X, p) == LET c == LeadNZ(X[1].v) IN
  Ndim(X[1]) = 1 /\ (IF c = <<>> THEN p.w = <<>> ELSE [i \in 1..Len(c) |-> Cx(c[i], Zero)] = Expand(<<Cx(c[1], Zero)>>, p.w))
CountV(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
RootPost(X, p, r) ==
  LET real == \A i \in 1..Len(p.w) : Im(p.w[i]) = Zero
      got == [i \in 1..Len(r.v) |-> Cx(Re(r.v[i]), Im(r.v[i]))] IN
  /\ r.s = <<Len(p.w)>> /\ r.d = (IF real THEN "float64" ELSE "complex128")
  /\ \A i \in 1..Len(p.w) : CountV(got, p.w[i]) = CountV(p.w, p.w[i])
StatRel == {"polyfit", "roots"}
StatRelPre(e, X) == IF e.op = "polyfit" THEN FitPre(X, e.p) ELSE RootPre(X, e.p)
StatRelPost(e, X, R) == IF e.op = "polyfit" THEN FitPost(X, e.p, R[1]) ELSE RootPost(X, e.p, R[1])
=============================================================================
