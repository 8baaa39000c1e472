-------------------------------- MODULE Sort --------------------------------
(***************************************************************************)
(* Sorting, partitioning, set functions and searching.                     *)
(* Partition and argpartition are relations: any arrangement with the      *)
(* defining property is accepted.                                          *)
(***************************************************************************)
EXTENDS Reduce

SortVals(q) == SortSeq(q, LAMBDA a, b : Cmp(a, b) < 0)
\* stable order of the positions 1..n under the strict order L on positions
StableOrder(n, L(_, _)) == SortSeq([i \in 1..n |-> i], LAMBDA i, j : L(i, j) \/ (~L(j, i) /\ i < j))
ArgSort(q) == LET o == StableOrder(Len(q), LAMBDA i, j : Cmp(q[i], q[j]) < 0) IN [k \in 1..Len(q) |-> I(o[k] - 1)]
\* the last key is the primary one
LexLess(ks, i, j) ==
  LET d == {k \in 1..Len(ks) : Cmp(ks[k][i], ks[k][j]) # 0} IN
  d # {} /\ LET m == CHOOSE k \in d : \A x \in d : x <= k IN Cmp(ks[m][i], ks[m][j]) < 0
LexSort(ks) == LET o == StableOrder(Len(ks[1]), LAMBDA i, j : LexLess(ks, i, j)) IN [k \in 1..Len(ks[1]) |-> I(o[k] - 1)]
SortApply(A, p, d, F(_)) ==
  IF p.none = 1 THEN Ok1(Arr(<<Len(A.v)>>, d, F(A.v)))
  ELSE IF ~AxisOK(p.axis, Ndim(A)) THEN Err
  ELSE LET ax == NormAxis(p.axis, Ndim(A)) IN Ok1(AlongMap(A, ax, A.s[ax + 1], d, F))

(* --------------------------- partition relation -------------------------- *)
CountIn(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
IsPermOf(q, r) == Len(q) = Len(r) /\ \A i \in 1..Len(q) : CountIn(q, q[i]) = CountIn(r, q[i])
\* q is arranged around position k (0-based)
Partitioned(q, k) == /\ \A i \in 1..k : Cmp(q[i], q[k + 1]) <= 0
                     /\ \A i \in (k + 2)..Len(q) : Cmp(q[k + 1], q[i]) <= 0
IsIndexPerm(ix, n) == Len(ix) = n /\ {ix[i] : i \in 1..n} = {I(i) : i \in 0..(n - 1)}
PartArr(A, p) == IF p.none = 1 THEN Ravel(A) ELSE A
PartAxis(A, p) == IF p.none = 1 THEN 0 ELSE NormAxis(p.axis, Ndim(A))
PartPre(A, p) == /\ p.none = 1 \/ AxisOK(p.axis, Ndim(A))
                 /\ LET Q == PartArr(A, p) IN p.kth < Q.s[PartAxis(A, p) + 1]
Lanes(A, ax) == LET so == RemoveAt(A.s, ax + 1) cs == CStrides(so) IN
                [k \in 1..Size(so) |-> Lane(A, ax, Unravel(k - 1, so, cs))]
PartPost(A, p, R) ==           \* R: the partitioned array
  LET Q == PartArr(A, p) ax == PartAxis(A, p) IN
  /\ R.s = Q.s /\ R.d = Q.d
  /\ LET a == Lanes(Q, ax) b == Lanes(R, ax) IN
     \A k \in 1..Len(a) : IsPermOf(a[k], b[k]) /\ Partitioned(b[k], p.kth)
ArgPartPost(A, p, R) ==
  LET Q == PartArr(A, p) ax == PartAxis(A, p) IN
  /\ R.s = Q.s /\ R.d = "int64"
  /\ LET a == Lanes(Q, ax) b == Lanes(R, ax) IN
     \A k \in 1..Len(a) : /\ IsIndexPerm(b[k], Len(a[k]))
                          /\ Partitioned([i \in 1..Len(a[k]) |-> a[k][b[k][i][1] + 1]], p.kth)

(* ----------------------------- set functions ---------------------------- *)
\* sorted distinct elements; NaN (all NaNs count as one here) last
RECURSIVE Dedup(_, _)
Dedup(s, i) == IF i > Len(s) THEN <<>>
               ELSE IF i > 1 /\ s[i] = s[i - 1] THEN Dedup(s, i + 1) ELSE <<s[i]>> \o Dedup(s, i + 1)
UniqueV(q) == Dedup(SortVals(q), 1)
PosIn(u, x) == CHOOSE i \in 1..Len(u) : u[i] = x
UniqueApply(A, p) ==
  LET u == TLCEval(UniqueV(A.v))
      n == Len(u)
      vals == RA(Arr(<<n>>, A.d, u))
      first == RA(Arr(<<n>>, "int64", [k \in 1..n |-> I((CHOOSE i \in 1..Len(A.v) : A.v[i] = u[k] /\ \A j \in 1..(i - 1) : A.v[j] # u[k]) - 1)]))
      inv == RA(Arr(A.s, "int64", [i \in 1..Len(A.v) |-> I(PosIn(u, A.v[i]) - 1)]))
      cnt == RA(Arr(<<n>>, "int64", [k \in 1..n |-> I(CountIn(A.v, u[k]))]))
  IN Ok(CASE p.f \in {"unique", "unique_values"} -> <<vals>>
          [] p.f = "unique_counts" -> <<vals, cnt>>
          [] p.f = "unique_inverse" -> <<vals, inv>>
          [] p.f = "unique_all" -> <<vals, first, inv, cnt>>)
Member(x, q) == ~IsNaN(x) /\ \E i \in 1..Len(q) : q[i] = x
SetApply(A, Bx, p) ==
  LET d == Promote(A.d, Bx.d)
      a == TLCEval(UniqueV(Cast1(A, d).v))
      b == TLCEval(UniqueV(Cast1(Bx, d).v))
      onlya == SelectSeq(a, LAMBDA x : ~Member(x, b))
      onlyb == SelectSeq(b, LAMBDA x : ~Member(x, a))
      r == CASE p.f = "intersect1d" -> SelectSeq(a, LAMBDA x : Member(x, b))
             [] p.f = "union1d" -> UniqueV(a \o b)
             [] p.f = "setdiff1d" -> onlya
             [] p.f = "setxor1d" -> SortVals(onlya \o onlyb)
  IN Ok1(IF p.f = "setdiff1d" THEN Cast1(Arr(<<Len(r)>>, d, r), A.d) ELSE Arr(<<Len(r)>>, d, r))
IsInApply(A, Bx, p) ==
  LET d == Promote(A.d, Bx.d) a == Cast1(A, d) b == Cast1(Bx, d)
  IN Ok1(Arr(IF p.f = "in1d" THEN <<Len(A.v)>> ELSE A.s, "bool",
             [i \in 1..Len(A.v) |-> Bool(Member(a.v[i], b.v) # (p.inv = 1))]))

(* ------------------------------- searching ------------------------------ *)
\* number of elements of the sorted q before which x is inserted
InsPos(q, x, right) == Cardinality({i \in 1..Len(q) : IF right THEN Cmp(q[i], x) <= 0 ELSE Cmp(q[i], x) < 0})
SearchApply(A, V, p) ==
  IF Ndim(A) # 1 THEN Err
  ELSE Ok1(Arr(V.s, "int64", [i \in 1..Len(V.v) |-> I(InsPos(A.v, V.v[i], p.right = 1))]))
\* bins ascending: i with bins[i-1] <= x < bins[i]  (right: bins[i-1] < x <= bins[i]);
\* bins descending: bins[i-1] > x >= bins[i]        (right: bins[i-1] >= x > bins[i])
DigitizeV(b, x, right) ==
  IF Len(b) > 1 /\ Cmp(b[1], b[Len(b)]) > 0
  THEN Cardinality({i \in 1..Len(b) : IF right THEN Cmp(b[i], x) >= 0 ELSE Cmp(b[i], x) > 0})
  ELSE InsPos(b, x, ~right)
DigitizeApply(X, Bn, p) == Ok1(Arr(X.s, "int64", [i \in 1..Len(X.v) |-> I(DigitizeV(Bn.v, X.v[i], p.right = 1))]))
TruePos(A) == SelectIdx(A.v, LAMBDA i : Truthy(A.v[i]))
NonzeroApply(A, p) ==
  LET t == TruePos(A) cs == CStrides(A.s) m == Len(t)
      ix(k) == Unravel(t[k] - 1, A.s, cs)
  IN CASE p.f = "nonzero" -> Ok([j \in 1..Ndim(A) |-> RA(Arr(<<m>>, "int64", [k \in 1..m |-> I(ix(k)[j])]))])
       [] p.f = "argwhere" -> Ok1(Arr(<<m, Ndim(A)>>, "int64", Flatten([k \in 1..m |-> [j \in 1..Ndim(A) |-> I(ix(k)[j])]])))
       [] p.f = "flatnonzero" -> Ok1(Arr(<<m>>, "int64", [k \in 1..m |-> I(t[k] - 1)]))
BincountApply(A, p) ==
  IF Ndim(A) # 1 \/ (\E i \in 1..Len(A.v) : Sgn(A.v[i]) < 0) THEN Err
  ELSE LET m == IF A.v = <<>> THEN -1 ELSE MaxV(A.v)[1]
           n == MaxI(m + 1, p.minlength)
       IN Ok1(Arr(<<n>>, "int64", [k \in 1..n |-> I(CountIn(A.v, I(k - 1)))]))

SortOps == {"sort", "argsort", "lexsort", "unique", "set2", "isin", "searchsorted", "digitize", "nonzero", "bincount"}
SortRel == {"partition", "argpartition"}
SortDispatch(e, A) ==
  LET p == e.p IN
  CASE e.op = "sort" -> SortApply(A[1], p, A[1].d, SortVals)
    [] e.op = "argsort" -> SortApply(A[1], p, "int64", ArgSort)
    [] e.op = "lexsort" ->
         IF Len(A) = 0 \/ (\E k \in 1..Len(A) : Ndim(A[k]) # 1 \/ A[k].s # A[1].s) THEN Err
         ELSE Ok1(Arr(A[1].s, "int64", LexSort([k \in 1..Len(A) |-> A[k].v])))
    [] e.op = "unique" -> UniqueApply(A[1], p)
    [] e.op = "set2" -> SetApply(A[1], A[2], p)
    [] e.op = "isin" -> IsInApply(A[1], A[2], p)
    [] e.op = "searchsorted" -> SearchApply(A[1], A[2], p)
    [] e.op = "digitize" -> DigitizeApply(A[1], A[2], p)
    [] e.op = "nonzero" -> NonzeroApply(A[1], p)
    [] e.op = "bincount" -> BincountApply(A[1], p)
SortRelPre(e, A) == PartPre(A[1], e.p)
SortRelPost(e, A, R) ==
  CASE e.op = "partition" -> PartPost(A[1], e.p, R[1])
    [] e.op = "argpartition" -> ArgPartPost(A[1], e.p, R[1])
=============================================================================
