------------------------------- MODULE NDArray ------------------------------
(***************************************************************************)
(* Logical arrays and index arithmetic.  A logical array is                *)
(*   [s |-> shape, d |-> dtype, v |-> elements in row-major order]         *)
(* Flat positions and indices are 0-based, TLA+ sequences 1-based.         *)
(***************************************************************************)
EXTENDS Values, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Size(s) == ProdFrom(s, 1)
CStrides(s) == [i \in 1..Len(s) |-> ProdFrom(s, i + 1)]
RECURSIVE SumSeqI(_, _)
SumSeqI(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumSeqI(q, i + 1)
SumI(q) == SumSeqI(q, 1)
RECURSIVE DotI(_, _, _)
DotI(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + DotI(a, b, i + 1)
Unravel(k, s, cs) == [j \in 1..Len(s) |-> (k \div cs[j]) % s[j]]
RavelIdx(ix, cs) == DotI(ix, cs, 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertBefore(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Range(q) == {q[i] : i \in 1..Len(q)}
SelectIdx(q, P(_)) ==        \* ascending positions i with P(i)
  LET RECURSIVE go(_)
      go(i) == IF i > Len(q) THEN <<>> ELSE IF P(i) THEN <<i>> \o go(i + 1) ELSE go(i + 1)
  IN go(1)
RECURSIVE Flat(_, _)
Flat(qq, i) == IF i > Len(qq) THEN <<>> ELSE qq[i] \o Flat(qq, i + 1)
Flatten(qq) == Flat(qq, 1)
NormAxis(a, n) == IF a < 0 THEN a + n ELSE a      \* 0-based
AxisOK(a, n) == a >= -n /\ a < n
Iota(n) == [i \in 1..n |-> i - 1]
Const(n, x) == [i \in 1..n |-> x]

Arr(s, d, v) == [s |-> TLCEval(s), d |-> d, v |-> TLCEval(v)]
Ndim(A) == Len(A.s)
N(A) == Len(A.v)
At(A, ix) == A.v[1 + RavelIdx(ix, CStrides(A.s))]
\* gather: the array of shape s whose element at index ix is A's element at F(ix)
Gather(A, s, F(_)) ==
  LET a == TLCEval(A) t == TLCEval(s) cs == TLCEval(CStrides(t)) ca == TLCEval(CStrides(a.s)) IN
  Arr(t, a.d, [k \in 1..Size(t) |-> a.v[1 + RavelIdx(F(Unravel(k - 1, t, cs)), ca)]])
Map(A, d, F(_)) == Arr(A.s, d, [k \in 1..Len(A.v) |-> F(A.v[k])])
Cast1(A, d) == Map(A, d, LAMBDA x : Cast(x, A.d, d))

(* ---- slices: Python semantics; st/sp = "none" are encoded by flags ---- *)
\* slice record: [has start, start, has stop, stop, step] -> <<start, len, step>>
SliceNorm(h1, st, h2, sp, step, n) ==
  LET lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      cl(x) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
      a == IF h1 = 1 THEN cl(st) ELSE IF step > 0 THEN 0 ELSE n - 1
      b == IF h2 = 1 THEN cl(sp) ELSE IF step > 0 THEN n ELSE -1
      len == IF step > 0 THEN (IF b > a THEN (b - a + step - 1) \div step ELSE 0)
             ELSE (IF a > b THEN (a - b - step - 1) \div (-step) ELSE 0)
  IN <<a, len, step>>

(* ---- broadcasting ---- *)
PadL(s, n) == [i \in 1..n |-> IF i > n - Len(s) THEN s[i - (n - Len(s))] ELSE 1]
BcastOK2(s, t) ==
  LET n == MaxI(Len(s), Len(t)) a == PadL(s, n) b == PadL(t, n)
  IN \A i \in 1..n : a[i] = b[i] \/ a[i] = 1 \/ b[i] = 1
Bcast2(s, t) ==
  LET n == MaxI(Len(s), Len(t)) a == PadL(s, n) b == PadL(t, n)
  IN [i \in 1..n |-> IF a[i] = 1 THEN b[i] ELSE a[i]]
RECURSIVE BcastAllFrom(_, _, _)     \* <<ok, shape>>
BcastAllFrom(ss, i, acc) ==
  IF i > Len(ss) THEN <<TRUE, acc>>
  ELSE IF ~BcastOK2(acc, ss[i]) THEN <<FALSE, acc>> ELSE BcastAllFrom(ss, i + 1, Bcast2(acc, ss[i]))
BcastAll(ss) == BcastAllFrom(ss, 1, <<>>)
CanBcastTo(s, t) == Len(s) <= Len(t) /\ BcastOK2(s, t) /\ Bcast2(s, t) = t
BIdx(ix, s) == LET o == Len(ix) - Len(s) IN [j \in 1..Len(s) |-> IF s[j] = 1 THEN 0 ELSE ix[j + o]]
BcastTo(A, s) == LET a == TLCEval(A) IN IF a.s = s THEN a ELSE Gather(a, s, LAMBDA ix : BIdx(ix, a.s))
Zip2(A, Bx, s, d, F(_, _)) ==
  LET a == TLCEval(BcastTo(A, s)) b == TLCEval(BcastTo(Bx, s)) IN Arr(s, d, [k \in 1..Size(s) |-> F(a.v[k], b.v[k])])

(* ---- folding along axes ---- *)
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(F(_, _), acc, q, i) == IF i > Len(q) THEN acc ELSE FoldFrom(F, TLCEval(F(acc, q[i])), q, i + 1)
Fold(F(_, _), z, q) == FoldFrom(F, z, q, 1)
\* the elements of A along the (0-based) axes set AX at outer index, in row-major order of AX
Lane(A, ax, outer) ==          \* single axis: outer is an index of the shape without ax
  LET cs == CStrides(A.s)
      ix == InsertBefore(outer, ax + 1, 0)
      base == RavelIdx(ix, cs)
  IN [j \in 1..A.s[ax + 1] |-> A.v[1 + base + (j - 1) * cs[ax + 1]]]
\* apply F (lane -> value) along axis, dropping the axis
AlongDrop(A, ax, d, F(_)) ==
  LET s == RemoveAt(A.s, ax + 1) cs == CStrides(s) IN
  Arr(s, d, [k \in 1..Size(s) |-> F(Lane(A, ax, Unravel(k - 1, s, cs)))])
\* apply F (lane -> lane of length m) along axis
AlongMap(A, ax, m, d, F(_)) ==
  LET so == RemoveAt(A.s, ax + 1) cso == CStrides(so)
      lanes == TLCEval([k \in 1..Size(so) |-> TLCEval(F(Lane(A, ax, Unravel(k - 1, so, cso))))])
      s == [A.s EXCEPT ![ax + 1] = m] cs == CStrides(s)
  IN Arr(s, d, [k \in 1..Size(s) |->
        LET ix == Unravel(k - 1, s, cs)
            o == RemoveAt(ix, ax + 1)
        IN lanes[1 + RavelIdx(o, cso)][ix[ax + 1] + 1]])
Perm(A, axes) ==               \* axes: 0-based permutation
  LET n == Len(axes)
      inv == [j \in 1..n |-> CHOOSE i \in 1..n : axes[i] = j - 1]
  IN Gather(A, [i \in 1..n |-> A.s[axes[i] + 1]], LAMBDA ix : [j \in 1..n |-> ix[inv[j]]])
Reshape(A, s) == Arr(s, A.d, A.v)
Ravel(A) == Arr(<<Len(A.v)>>, A.d, A.v)
\* move the reduced axes to the end and merge them: lanes over a set of axes
MergeAxes(A, axs) ==           \* axs: sequence of distinct 0-based axes, ascending
  LET rest == SelectSeq(Iota(Ndim(A)), LAMBDA i : i \notin Range(axs))
      P == Perm(A, rest \o axs)
      so == [i \in 1..Len(rest) |-> A.s[rest[i] + 1]]
  IN Arr(so \o <<Size([i \in 1..Len(axs) |-> A.s[axs[i] + 1]])>>, A.d, P.v)
\* reshape target with one -1
ReshapeOK(s, n) ==
  LET neg == {i \in 1..Len(s) : s[i] < 0}
      kn == Size([i \in 1..Len(s) |-> IF s[i] < 0 THEN 1 ELSE s[i]])
  IN /\ Cardinality(neg) <= 1
     /\ \A i \in neg : s[i] = -1
     /\ IF neg = {} THEN kn = n ELSE kn > 0 /\ n % kn = 0
ReshapeTo(s, n) ==
  LET kn == Size([i \in 1..Len(s) |-> IF s[i] < 0 THEN 1 ELSE s[i]])
  IN [i \in 1..Len(s) |-> IF s[i] < 0 THEN n \div kn ELSE s[i]]
=============================================================================
