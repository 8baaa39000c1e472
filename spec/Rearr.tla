-------------------------------- MODULE Rearr -------------------------------
(***************************************************************************)
(* Joining, splitting, rearranging, gathering and selecting: every element *)
(* of the result is named by an index map into the operands.               *)
(***************************************************************************)
EXTENDS Sort

RECURSIVE PromAll(_, _, _)
PromAll(A, i, d) == IF i > Len(A) THEN d ELSE PromAll(A, i + 1, Promote(d, A[i].d))
CommonD(A) == PromAll(A, 2, A[1].d)
ZeroOf(d) == CASE d \in {"complex64", "complex128"} -> <<0, 1, 0, 1>> [] d = "str" -> <<>> [] OTHER -> Zero
BadA == Arr(<<>>, "bad", <<>>)
IsBad(A) == A.d = "bad"
WrapA(A) == IF IsBad(A) THEN Err ELSE Ok1(A)

(* --------------------------------- joining ------------------------------ *)
Atleast(A, n) == Reshape(A, PadL(A.s, MaxI(n, Ndim(A))))
Atleast3(A) == CASE Ndim(A) = 0 -> Reshape(A, <<1, 1, 1>>)
                 [] Ndim(A) = 1 -> Reshape(A, <<1, A.s[1], 1>>)
                 [] Ndim(A) = 2 -> Reshape(A, A.s \o <<1>>)
                 [] OTHER -> A
\* end positions of the parts along the axis
Ends(A, ax) == [i \in 1..Len(A) |-> SumI([j \in 1..i |-> A[j].s[ax + 1]])]
ConcatOK(A, ax) ==
  /\ Len(A) > 0 /\ Ndim(A[1]) > 0 /\ AxisOK(ax, Ndim(A[1]))
  /\ \A i \in 1..Len(A) : Ndim(A[i]) = Ndim(A[1])
  /\ LET k == NormAxis(ax, Ndim(A[1])) + 1 IN
     \A i \in 1..Len(A) : \A j \in 1..Ndim(A[1]) : j = k \/ A[i].s[j] = A[1].s[j]
Concat(A, ax0) ==
  IF ~ConcatOK(A, ax0) THEN BadA
  ELSE LET ax == NormAxis(ax0, Ndim(A[1]))
           d == CommonD(A)
           Pt == TLCEval([i \in 1..Len(A) |-> Cast1(A[i], d)])
           en == TLCEval(Ends(A, ax))
           s == [A[1].s EXCEPT ![ax + 1] = en[Len(A)]]
           cs == CStrides(s)
           csb == [i \in 1..Len(Pt) |-> CStrides(Pt[i].s)]
       IN Arr(s, d, [k \in 1..Size(s) |->
            LET ix == Unravel(k - 1, s, cs)
                p == CHOOSE i \in 1..Len(A) : ix[ax + 1] < en[i] /\ (i = 1 \/ ix[ax + 1] >= en[i - 1])
                o == IF p = 1 THEN 0 ELSE en[p - 1]
            IN Pt[p].v[1 + RavelIdx([ix EXCEPT ![ax + 1] = @ - o], csb[p])]])
Stack(A, ax) ==
  IF Len(A) = 0 \/ (\E i \in 1..Len(A) : A[i].s # A[1].s) \/ ~AxisOK(ax, Ndim(A[1]) + 1) THEN BadA
  ELSE LET k == NormAxis(ax, Ndim(A[1]) + 1) IN
       Concat([i \in 1..Len(A) |-> Reshape(A[i], InsertBefore(A[i].s, k + 1, 1))], k)
EachA(A, F(_)) == [i \in 1..Len(A) |-> F(A[i])]
HStack(A) == LET Pt == EachA(A, LAMBDA x : Atleast(x, 1)) IN
             IF Len(Pt) = 0 THEN BadA ELSE Concat(Pt, IF Ndim(Pt[1]) = 1 THEN 0 ELSE 1)
\* nested lists of arrays: rows of columns (depth 2) or a single row (depth 1)
Block(A, p) ==
  LET nd == FoldFrom(LAMBDA m, x : MaxI(m, Ndim(x)), p.depth, A, 1)
      Pt == EachA(A, LAMBDA x : Atleast(x, nd))
      off(i) == SumI([j \in 1..(i - 1) |-> p.rows[j]])
      rowA == [i \in 1..Len(p.rows) |-> Concat(SubSeq(Pt, off(i) + 1, off(i) + p.rows[i]), -1)]
  IN IF \E i \in 1..Len(rowA) : IsBad(rowA[i]) THEN BadA
     ELSE IF p.depth = 1 THEN rowA[1] ELSE Concat(rowA, -2)
JoinApply(A, p) ==
  CASE p.f \in {"concatenate", "concat"} -> Concat(A, p.axis)
    [] p.f = "stack" -> Stack(A, p.axis)
    [] p.f \in {"vstack", "row_stack"} -> Concat(EachA(A, LAMBDA x : Atleast(x, 2)), 0)
    [] p.f = "hstack" -> HStack(A)
    [] p.f = "dstack" -> Concat(EachA(A, Atleast3), 2)
    [] p.f = "column_stack" -> Concat(EachA(A, LAMBDA x : IF Ndim(x) = 1 THEN Reshape(x, <<x.s[1], 1>>)
                                                          ELSE IF Ndim(x) = 0 THEN Reshape(x, <<1, 1>>) ELSE x), 1)
    [] p.f = "append" -> IF p.none = 1 THEN Concat(EachA(A, Ravel), 0) ELSE Concat(A, p.axis)
    [] p.f = "block" -> Block(A, p)

(* ------------------------------ rearranging ----------------------------- *)
\* F maps an index of the result along axis ax to an index of the operand
AxisMap(A, ax, m, F(_)) == Gather(A, [A.s EXCEPT ![ax + 1] = m], LAMBDA ix : [ix EXCEPT ![ax + 1] = F(@)])
RollA(A, p) ==
  IF p.none = 1 THEN LET n == Len(A.v) IN
       [A EXCEPT !.v = [k \in 1..n |-> A.v[1 + ((k - 1 - p.shift) % n)]]]
  ELSE IF ~AxisOK(p.axis, Ndim(A)) THEN BadA
  ELSE LET ax == NormAxis(p.axis, Ndim(A)) IN AxisMap(A, ax, A.s[ax + 1], LAMBDA i : (i - p.shift) % A.s[ax + 1])
TileA(A, reps) ==
  LET n == MaxI(Len(reps), Ndim(A)) s == PadL(A.s, n) r == PadL(reps, n)
  IN Gather(Reshape(A, s), [i \in 1..n |-> s[i] * r[i]], LAMBDA ix : [i \in 1..n |-> ix[i] % s[i]])
RepeatA(A, p) ==
  IF p.none = 1 THEN AxisMap(Ravel(A), 0, Len(A.v) * p.reps, LAMBDA i : i \div p.reps)
  ELSE IF ~AxisOK(p.axis, Ndim(A)) THEN BadA
  ELSE LET ax == NormAxis(p.axis, Ndim(A)) IN AxisMap(A, ax, A.s[ax + 1] * p.reps, LAMBDA i : i \div p.reps)
PadA(A, p) ==
  IF Len(p.w) # Ndim(A) \/ p.mode \notin {"constant", "edge"} THEN BadA
  ELSE IF p.mode = "edge" /\ (\E i \in 1..Ndim(A) : A.s[i] = 0 /\ p.w[i][1] + p.w[i][2] > 0) THEN BadA
  ELSE LET s == [i \in 1..Ndim(A) |-> p.w[i][1] + A.s[i] + p.w[i][2]]
           cs == CStrides(s) ca == CStrides(A.s)
           cv == Cast(p.v, "float64", A.d)
           src(i, x) == x - p.w[i][1]
           inr(i, x) == src(i, x) >= 0 /\ src(i, x) < A.s[i]
           cl(i, x) == IF src(i, x) < 0 THEN 0 ELSE IF src(i, x) >= A.s[i] THEN A.s[i] - 1 ELSE src(i, x)
       IN Arr(s, A.d, [k \in 1..Size(s) |->
            LET ix == Unravel(k - 1, s, cs) IN
            IF p.mode = "constant" /\ (\E i \in 1..Len(s) : ~inr(i, ix[i])) THEN cv
            ELSE A.v[1 + RavelIdx([i \in 1..Len(s) |-> cl(i, ix[i])], ca)]])
TriA(A, k, lower) ==
  IF Ndim(A) < 2 THEN BadA
  ELSE LET cs == CStrides(A.s) n == Ndim(A) IN
       [A EXCEPT !.v = [q \in 1..Len(A.v) |->
          LET ix == Unravel(q - 1, A.s, cs) d == ix[n] - ix[n - 1] IN
          IF (lower = 1 /\ d <= k) \/ (lower = 0 /\ d >= k) THEN A.v[q] ELSE ZeroOf(A.d)]]
DiagFlat(A, k) ==
  LET m == Len(A.v) n == m + AbsI(k) IN
  Arr(<<n, n>>, A.d, [q \in 1..(n * n) |->
    LET i == (q - 1) \div n j == (q - 1) % n IN
    IF j - i = k THEN A.v[1 + MinI(i, j)] ELSE ZeroOf(A.d)])
DiagOf(A, k) ==
  LET r == A.s[1] c == A.s[2]
      i0 == IF k < 0 THEN -k ELSE 0
      j0 == IF k > 0 THEN k ELSE 0
      m == MaxI(0, MinI(r - i0, c - j0))
  IN Arr(<<m>>, A.d, [q \in 1..m |-> A.v[1 + (i0 + q - 1) * c + j0 + q - 1]])
DiagA(A, k) == IF Ndim(A) = 1 THEN DiagFlat(A, k) ELSE IF Ndim(A) = 2 THEN DiagOf(A, k) ELSE BadA
TrimA(A, p) ==
  LET t == SelectIdx(A.v, LAMBDA i : Truthy(A.v[i]))
      lo == IF p.front = 0 THEN 1 ELSE t[1]
      hi == IF p.back = 0 THEN Len(A.v) ELSE t[Len(t)]
      v == IF Len(t) = 0 THEN <<>> ELSE SubSeq(A.v, lo, hi)
  IN IF Ndim(A) # 1 THEN BadA
     ELSE IF Len(t) = 0 /\ p.front = 0 /\ p.back = 0 THEN A ELSE Arr(<<Len(v)>>, A.d, v)
ResizeA(A, s) == Arr(s, A.d, [k \in 1..Size(s) |-> IF Len(A.v) = 0 THEN ZeroOf(A.d) ELSE A.v[1 + ((k - 1) % Len(A.v))]])
DeleteA(A0, p) ==
  LET A == IF p.none = 1 THEN Ravel(A0) ELSE A0 a0 == IF p.none = 1 THEN 0 ELSE p.axis IN
  IF Ndim(A) = 0 \/ ~AxisOK(a0, Ndim(A)) THEN BadA
  ELSE LET ax == NormAxis(a0, Ndim(A)) L == A.s[ax + 1] IN
       IF p.ind < -L \/ p.ind >= L THEN BadA
       ELSE LET q == IF p.ind < 0 THEN p.ind + L ELSE p.ind IN AxisMap(A, ax, L - 1, LAMBDA i : IF i < q THEN i ELSE i + 1)
\* the rows of V (broadcast to the lane shape) are inserted before position ind
InsertA(A0, V, p) ==
  LET A == IF p.none = 1 THEN Ravel(A0) ELSE A0 a0 == IF p.none = 1 THEN 0 ELSE p.axis IN
  IF Ndim(A) = 0 \/ ~AxisOK(a0, Ndim(A)) THEN BadA
  ELSE LET ax == NormAxis(a0, Ndim(A)) L == A.s[ax + 1] IN
       IF p.ind < -L \/ p.ind > L THEN BadA
       ELSE LET q == IF p.ind < 0 THEN p.ind + L ELSE p.ind
                W == Cast1(V, A.d)
                m == IF Ndim(A) = 1 THEN Len(W.v) ELSE 1
                X == IF Ndim(A) = 1 THEN Ravel(W)
                     ELSE LET ls == [A.s EXCEPT ![ax + 1] = 1] IN
                          IF CanBcastTo(W.s, RemoveAt(A.s, ax + 1)) THEN Reshape(BcastTo(W, RemoveAt(A.s, ax + 1)), ls) ELSE BadA
                cut(a, b) == AxisMap(A, ax, b - a, LAMBDA i : a + i)
            IN IF IsBad(X) THEN BadA ELSE Concat(<<cut(0, q), X, cut(q, L)>>, ax)
RearrApply(A, p) ==
  CASE p.f = "roll" -> IF A.v = <<>> THEN (IF p.none = 1 \/ AxisOK(p.axis, Ndim(A)) THEN A ELSE BadA) ELSE RollA(A, p)
    [] p.f = "tile" -> TileA(A, p.reps)
    [] p.f = "repeat" -> RepeatA(A, p)
    [] p.f = "pad" -> PadA(A, p)
    [] p.f = "tril" -> TriA(A, p.k, 1)
    [] p.f = "triu" -> TriA(A, p.k, 0)
    [] p.f = "diag" -> DiagA(A, p.k)
    [] p.f = "diagflat" -> DiagFlat(Ravel(A), p.k)
    [] p.f = "trim_zeros" -> TrimA(A, p)
    [] p.f = "resize" -> ResizeA(A, p.s)
    [] p.f = "delete" -> DeleteA(A, p)

(* ------------------------------- gathering ------------------------------ *)
IndOK(ix, L) == ix >= -L /\ ix < L
NormInd(ix, L) == IF ix < 0 THEN ix + L ELSE ix
\* A indexed along ax by the array of integers X (values X.v[k][1])
TakeA(A0, X, p) ==
  LET A == IF p.none = 1 THEN Ravel(A0) ELSE A0 a0 == IF p.none = 1 THEN 0 ELSE p.axis IN
  IF Ndim(A) = 0 \/ ~AxisOK(a0, Ndim(A)) THEN BadA
  ELSE LET ax == NormAxis(a0, Ndim(A)) L == A.s[ax + 1] IN
       IF \E k \in 1..Len(X.v) : ~IndOK(X.v[k][1], L) THEN BadA
       ELSE LET s == TLCEval(SubSeq(A.s, 1, ax) \o X.s \o SubSeq(A.s, ax + 2, Ndim(A)))
                nx == Ndim(X) cx == TLCEval(CStrides(X.s))
            IN Gather(A, s, LAMBDA ix : SubSeq(ix, 1, ax)
                 \o <<NormInd(X.v[1 + RavelIdx(SubSeq(ix, ax + 1, ax + nx), cx)][1], L)>>
                 \o SubSeq(ix, ax + nx + 1, Len(ix)))
TakeAlongA(A, X, p) ==
  IF ~AxisOK(p.axis, Ndim(A)) \/ Ndim(X) # Ndim(A) THEN BadA
  ELSE LET ax == NormAxis(p.axis, Ndim(A)) L == A.s[ax + 1] IN
       IF \E j \in 1..Ndim(A) : j # ax + 1 /\ X.s[j] # A.s[j] THEN BadA
       ELSE IF \E k \in 1..Len(X.v) : ~IndOK(X.v[k][1], L) THEN BadA
       ELSE LET cx == TLCEval(CStrides(X.s)) IN
            Gather(A, X.s, LAMBDA ix : [ix EXCEPT ![ax + 1] = NormInd(X.v[1 + RavelIdx(ix, cx)][1], L)])
CompressA(C, A0, p) ==
  LET A == IF p.none = 1 THEN Ravel(A0) ELSE A0 a0 == IF p.none = 1 THEN 0 ELSE p.axis IN
  IF Ndim(A) = 0 \/ ~AxisOK(a0, Ndim(A)) THEN BadA
  ELSE LET ax == NormAxis(a0, Ndim(A))
           t == TLCEval(TruePos(C))
       IN IF \E k \in 1..Len(t) : t[k] > A.s[ax + 1] THEN BadA
          ELSE AxisMap(A, ax, Len(t), LAMBDA i : t[i + 1] - 1)
ExtractA(C, A) ==
  LET t == TLCEval(TruePos(C)) IN
  IF \E k \in 1..Len(t) : t[k] > Len(A.v) THEN BadA
  ELSE Arr(<<Len(t)>>, A.d, [k \in 1..Len(t) |-> A.v[t[k]]])
MaskA(A, M) == IF A.s # M.s THEN BadA ELSE ExtractA(M, A)
\* choices and index array broadcast together
ChooseA(A) ==
  LET ss == [i \in 1..Len(A) |-> A[i].s] b == TLCEval(BcastAll(ss)) C == Tail(A) IN
  IF Len(A) < 2 \/ ~b[1] THEN BadA
  ELSE IF \E k \in 1..Len(A[1].v) : A[1].v[k][1] < 0 \/ A[1].v[k][1] >= Len(C) THEN BadA
  ELSE LET d == TLCEval(CommonD(C))
           X == TLCEval(BcastTo(A[1], b[2]))
           Pt == TLCEval([i \in 1..Len(C) |-> BcastTo(Cast1(C[i], d), b[2])])
       IN Arr(b[2], d, [k \in 1..Len(X.v) |-> Pt[X.v[k][1] + 1].v[k]])
\* first condition that holds decides; p.n conditions, then p.n choices
SelectA(A, p) ==
  LET n == p.m
      ss == [i \in 1..Len(A) |-> A[i].s] b == TLCEval(BcastAll(ss))
      d == TLCEval(CommonD(SubSeq(A, n + 1, 2 * n)))
  IN IF n = 0 \/ Len(A) # 2 * n \/ ~b[1] THEN BadA
     ELSE LET C == TLCEval([i \in 1..n |-> BcastTo(A[i], b[2])])
              V == TLCEval([i \in 1..n |-> BcastTo(Cast1(A[n + i], d), b[2])])
          IN Arr(b[2], d, [k \in 1..Size(b[2]) |->
               LET t == {i \in 1..n : Truthy(C[i].v[k])} IN
               IF t = {} THEN Cast(p.v, "float64", d) ELSE V[CHOOSE i \in t : \A j \in t : i <= j].v[k]])
GatherApply(A, p) ==
  CASE p.f = "take" -> TakeA(A[1], A[2], p)
    [] p.f = "fancy" -> TakeA(A[1], A[2], [none |-> 0, axis |-> 0])
    [] p.f = "mask" -> MaskA(A[1], A[2])
    [] p.f = "take_along_axis" -> TakeAlongA(A[1], A[2], p)
    [] p.f = "compress" -> CompressA(A[1], A[2], p)
    [] p.f = "extract" -> ExtractA(A[1], A[2])
    [] p.f = "choose" -> ChooseA(A)
    [] p.f = "select" -> SelectA(A, p)

RearrOps == {"join", "rearr", "insert", "gather"}
RearrDispatch(e, A) ==
  CASE e.op = "join" -> WrapA(JoinApply(A, e.p))
    [] e.op = "rearr" -> WrapA(RearrApply(A[1], e.p))
    [] e.op = "insert" -> WrapA(InsertA(A[1], A[2], e.p))
    [] e.op = "gather" -> WrapA(GatherApply(A, e.p))
=============================================================================
