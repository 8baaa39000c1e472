------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reductions, NaN-aware reductions, prefix aggregates and differences.    *)
(***************************************************************************)
EXTENDS Elem

SumD(d, q) == Fold(LAMBDA a, x : Add(d, a, x), IF Kind(d) = "c" THEN Cx(Zero, Zero) ELSE Zero, q)
ProdD(d, q) == Fold(LAMBDA a, x : Mul(d, a, x), IF Kind(d) = "c" THEN Cx(One, Zero) ELSE One, q)
AnyNaN(q) == \E i \in 1..Len(q) : IsNaN(q[i])
MaxV(q) == IF AnyNaN(q) THEN NaN ELSE Fold(LAMBDA a, x : IF FCmp(x, a) > 0 THEN x ELSE a, q[1], q)
MinV(q) == IF AnyNaN(q) THEN NaN ELSE Fold(LAMBDA a, x : IF FCmp(x, a) < 0 THEN x ELSE a, q[1], q)
\* first position (0-based) of the extremum; a NaN is the extremum
FirstIdx(q, P(_)) == LET s == SelectIdx(q, LAMBDA i : P(q[i])) IN s[1] - 1
ArgMax(q) == IF AnyNaN(q) THEN FirstIdx(q, IsNaN) ELSE LET m == MaxV(q) IN FirstIdx(q, LAMBDA x : x = m)
ArgMin(q) == IF AnyNaN(q) THEN FirstIdx(q, IsNaN) ELSE LET m == MinV(q) IN FirstIdx(q, LAMBDA x : x = m)
FSum(q) == Fold(FAdd, Zero, q)
Mean(q) == IF q = <<>> THEN NaN ELSE FDiv(FSum(q), I(Len(q)))
\* population variance: (n * sum x^2 - (sum x)^2) / n^2
Var(q) ==
  LET n == Len(q) IN
  IF n = 0 \/ (\E i \in 1..n : ~IsFinite(q[i])) THEN NaN
  ELSE LET s == FSum(q) s2 == Fold(LAMBDA a, x : FAdd(a, FMul(x, x)), Zero, q)
       IN FDiv(FDiv(FSub(FMul(I(n), s2), FMul(s, s)), I(n)), I(n))
\* central moment of order k
RECURSIVE PowV(_, _)
PowV(x, k) == IF k = 0 THEN One ELSE FMul(x, PowV(x, k - 1))
Moment(q, k) == IF q = <<>> THEN NaN
                ELSE LET m == Mean(q) IN Mean([i \in 1..Len(q) |-> PowV(FSub(q[i], m), k)])
SortQ(q) == SortSeq(q, LAMBDA a, b : Cmp(a, b) < 0)
\* linear interpolation between order statistics; t = rational position in 0 .. n-1
Quant(q, qq) ==
  IF q = <<>> \/ AnyNaN(q) THEN NaN
  ELSE LET s == SortQ(q)
           t == FMul(qq, I(Len(q) - 1))
           lo == FFloor(t)[1]
           f == FSub(t, I(lo))
       IN IF f = Zero THEN s[lo + 1] ELSE FAdd(s[lo + 1], FMul(f, FSub(s[lo + 2], s[lo + 1])))
Median(q) == Quant(q, <<1, 2>>)
NoNaN(q) == SelectSeq(q, LAMBDA x : ~IsNaN(x))
Bools(q) == [i \in 1..Len(q) |-> Truthy(q[i])]

\* dtype of a reduction of dtype d
RedType(f, d) ==
  CASE f \in {"argmax", "argmin", "nanargmax", "nanargmin", "count_nonzero"} -> "int64"
    [] f \in {"all", "any"} -> "bool"
    [] f \in {"mean", "var", "std", "average"} -> IF Kind(d) = "f" THEN d ELSE "float64"
    [] f \in {"median", "nanmedian", "nanmean", "nanvar", "nanstd", "moment"} -> "float64"
    [] OTHER -> d
NanF == {"nansum", "nanprod", "nanmax", "nanmin", "nanmean", "nanvar", "nanstd", "nanargmax", "nanargmin", "nanmedian"}
RedV(f, d, q, p) ==            \* std-like functions are observed squared
  CASE f = "sum" -> SumD(d, q)
    [] f = "prod" -> ProdD(d, q)
    [] f = "max" -> MaxV(q)
    [] f = "min" -> MinV(q)
    [] f = "ptp" -> IF AnyNaN(q) THEN NaN ELSE Sub(d, MaxV(q), MinV(q))
    [] f \in {"mean", "average"} -> Mean(q)
    [] f \in {"var", "std"} -> Var(q)
    [] f = "moment" -> Moment(q, p.k)
    [] f = "argmax" -> I(ArgMax(q))
    [] f = "argmin" -> I(ArgMin(q))
    [] f = "all" -> Bool(\A i \in 1..Len(q) : Truthy(q[i]))
    [] f = "any" -> Bool(\E i \in 1..Len(q) : Truthy(q[i]))
    [] f = "count_nonzero" -> I(Cardinality({i \in 1..Len(q) : Truthy(q[i])}))
    [] f = "median" -> Median(q)
    [] f = "nansum" -> SumD(d, NoNaN(q))
    [] f = "nanprod" -> ProdD(d, NoNaN(q))
    [] f = "nanmax" -> IF NoNaN(q) = <<>> THEN NaN ELSE MaxV(NoNaN(q))
    [] f = "nanmin" -> IF NoNaN(q) = <<>> THEN NaN ELSE MinV(NoNaN(q))
    [] f = "nanmean" -> Mean(NoNaN(q))
    [] f \in {"nanvar", "nanstd"} -> Var(NoNaN(q))
    [] f = "nanmedian" -> Median(NoNaN(q))
    [] f = "nanargmax" -> LET m == MaxV(NoNaN(q)) IN I(FirstIdx(q, LAMBDA x : x = m))
    [] f = "nanargmin" -> LET m == MinV(NoNaN(q)) IN I(FirstIdx(q, LAMBDA x : x = m))
\* functions without a value on an empty lane
NoEmpty == {"max", "min", "ptp", "argmax", "argmin", "nanmax", "nanmin", "nanargmax", "nanargmin", "amax", "amin"}
NeedsNonNaN == {"nanargmax", "nanargmin"}

\* ascending normalised axes
NormAxes(axs, n) == SortSeq([i \in 1..Len(axs) |-> NormAxis(axs[i], n)], LAMBDA a, b : a < b)
AxesOK(axs, n) == /\ \A i \in 1..Len(axs) : AxisOK(axs[i], n)
                  /\ \A i, j \in 1..Len(axs) : i # j => NormAxis(axs[i], n) # NormAxis(axs[j], n)
\* library convention: an array result without axes is returned with shape (1,)
Wrap0(A) == IF A.s = <<>> THEN Reshape(A, <<1>>) ELSE A
\* reduce with F : lane -> value; none = 1: over all elements, giving a scalar unless keepdims
Reduce(A, p, d, F(_)) ==
  LET n == Ndim(A) IN
  IF p.none = 1
  THEN IF p.keep = 1 THEN Ok1(Arr(Const(n, 1), d, <<F(A.v)>>)) ELSE OkS(F(A.v))
  ELSE IF ~AxesOK(p.ax, n) THEN Err
  ELSE LET axs == NormAxes(p.ax, n)
           M == TLCEval(MergeAxes(A, axs))
           R == AlongDrop(M, Ndim(M) - 1, d, F)
           ks == [i \in 1..n |-> IF (i - 1) \in Range(axs) THEN 1 ELSE A.s[i]]
       IN Ok1(IF p.keep = 1 THEN Reshape(R, ks) ELSE Wrap0(R))
LaneLen(A, p) == IF p.none = 1 THEN Len(A.v) ELSE Size([i \in 1..Len(p.ax) |-> A.s[NormAxis(p.ax[i], Ndim(A)) + 1]])
OutSize(A, p) == IF p.none = 1 THEN 1
                 ELSE LET axs == NormAxes(p.ax, Ndim(A)) IN
                      Size([i \in 1..Ndim(A) |-> IF (i - 1) \in Range(axs) THEN 1 ELSE A.s[i]])
AllNaNLane(A, p) ==
  LET r == Reduce(A, [p EXCEPT !.keep = 1], "bool", LAMBDA q : Bool(NoNaN(q) = <<>>))
  IN \E k \in 1..Len(r.res[1].a.v) : r.res[1].a.v[k] = One
RedApply(A, p) ==
  LET f == CASE p.f = "amax" -> "max" [] p.f = "amin" -> "min" [] OTHER -> p.f IN
  IF p.none = 0 /\ ~AxesOK(p.ax, Ndim(A)) THEN Err
  ELSE IF f \in NoEmpty /\ LaneLen(A, p) = 0 THEN Err
  ELSE IF f \in NeedsNonNaN /\ AllNaNLane(A, p) THEN Err
  ELSE Reduce(A, p, RedType(f, A.d), LAMBDA q : RedV(f, A.d, q, p))

\* weighted average; weights have the shape of the array
WAverage(A, W, p) ==
  LET wm(q) == FDiv(FSum([i \in 1..Len(q) |-> FMul(q[i][1], q[i][2])]), FSum([i \in 1..Len(q) |-> q[i][2]]))
      Z2 == Arr(A.s, "float64", [k \in 1..Len(A.v) |-> <<A.v[k], W.v[k]>>])
  IN IF A.s # W.s THEN Err ELSE Reduce(Z2, p, "float64", wm)

(* ------------------------------ prefix sums ----------------------------- *)
RECURSIVE Prefix(_, _, _, _)
Prefix(F(_, _), acc, q, i) ==
  IF i > Len(q) THEN <<>> ELSE LET a == TLCEval(F(acc, q[i])) IN <<a>> \o Prefix(F, a, q, i + 1)
CumLane(f, d, q) ==
  LET z == IF Kind(d) = "c" THEN Cx(Zero, Zero) ELSE Zero o == IF Kind(d) = "c" THEN Cx(One, Zero) ELSE One
      nq(w) == [i \in 1..Len(q) |-> IF IsNaN(q[i]) THEN w ELSE q[i]] IN
  CASE f \in {"cumsum", "cumulative_sum"} -> Prefix(LAMBDA a, x : Add(d, a, x), z, q, 1)
    [] f \in {"cumprod", "cumulative_prod"} -> Prefix(LAMBDA a, x : Mul(d, a, x), o, q, 1)
    [] f = "nancumsum" -> Prefix(LAMBDA a, x : Add(d, a, x), z, nq(z), 1)
    [] f = "nancumprod" -> Prefix(LAMBDA a, x : Mul(d, a, x), o, nq(o), 1)
CumApply(A, p) ==
  LET d == A.d
      ini == IF p.init = 1 THEN (IF p.f = "cumulative_sum" THEN <<Zero>> ELSE <<One>>) ELSE <<>>
  IN IF p.none = 1 THEN Ok1(Arr(<<Len(A.v)>>, d, CumLane(p.f, d, A.v)))
     ELSE IF ~AxisOK(p.axis, Ndim(A)) THEN Err
     ELSE LET ax == NormAxis(p.axis, Ndim(A)) IN
          Ok1(AlongMap(A, ax, A.s[ax + 1] + p.init, d, LAMBDA q : ini \o CumLane(p.f, d, q)))
RECURSIVE DiffN(_, _, _)
DiffN(d, q, n) == IF n = 0 \/ Len(q) = 0 THEN q
                  ELSE DiffN(d, [i \in 1..(Len(q) - 1) |-> IF d = "bool" THEN Bool(q[i + 1] # q[i]) ELSE Sub(d, q[i + 1], q[i])], n - 1)
DiffApply(A, p) ==
  IF ~AxisOK(p.axis, Ndim(A)) THEN Err
  ELSE LET ax == NormAxis(p.axis, Ndim(A)) IN
       Ok1(AlongMap(A, ax, MaxI(0, A.s[ax + 1] - p.ord), A.d, LAMBDA q : DiffN(A.d, q, p.ord)))
EDiff(A, p) ==
  Ok1(LET m == DiffN(A.d, A.v, 1) q == p.b \o m \o p.e IN Arr(<<Len(q)>>, A.d, q))
\* central differences inside, one-sided at the ends; h = spacing
GradLane(q, h) ==
  LET n == Len(q) IN
  [i \in 1..n |-> IF i = 1 THEN FDiv(FSub(q[2], q[1]), h)
                  ELSE IF i = n THEN FDiv(FSub(q[n], q[n - 1]), h)
                  ELSE FDiv(FSub(q[i + 1], q[i - 1]), FMul(I(2), h))]
FloatOr64(d) == IF d \in FloatTypes THEN d ELSE "float64"
GradAx(A, ax, h) == AlongMap(A, ax, A.s[ax + 1], "float64", LAMBDA q : GradLane(q, h))
TrapApply(A, p) ==
  IF ~AxisOK(p.axis, Ndim(A)) THEN Err
  ELSE LET ax == NormAxis(p.axis, Ndim(A))
           t(q) == FMul(FDiv(p.dx, I(2)), FSum([i \in 1..(Len(q) - 1) |-> FAdd(q[i], q[i + 1])]))
       IN Ok1(Wrap0(AlongDrop(A, ax, "float64", t)))
TrapX(Y, X) ==                 \* sample points given, 1-d
  Ok1(Arr(<<1>>, "float64", <<FSum([i \in 1..(Len(Y.v) - 1) |->
        FMul(FSub(X.v[i + 1], X.v[i]), FDiv(FAdd(Y.v[i], Y.v[i + 1]), I(2)))])>>))

ReduceOps == {"red", "waverage", "cum", "diff", "ediff1d", "gradient", "trapezoid", "trapezoid_x"}
ReduceApply(e, A) ==
  LET p == e.p IN
  CASE e.op = "red" -> RedApply(A[1], p)
    [] e.op = "waverage" -> WAverage(A[1], A[2], p)
    [] e.op = "cum" -> CumApply(A[1], p)
    [] e.op = "diff" -> DiffApply(A[1], p)
    [] e.op = "ediff1d" -> EDiff(A[1], p)
    [] e.op = "gradient" -> Ok1(GradAx(A[1], 0, p.h))
    [] e.op = "trapezoid" -> TrapApply(A[1], p)
    [] e.op = "trapezoid_x" -> TrapX(A[1], A[2])
=============================================================================
