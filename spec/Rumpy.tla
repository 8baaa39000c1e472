-------------------------------- MODULE Rumpy -------------------------------
(***************************************************************************)
(* The state machine: a heap of buffers, array handles into it, files and  *)
(* generators.  Apply(e, st) is the specified effect of one public call:   *)
(*   [err |-> "" or the class of exception,                                *)
(*    res |-> sequence of results, heap |-> heap after the call]           *)
(* A result is [t |-> "view", h |-> handle], [t |-> "arr", a |-> array]    *)
(* (fresh memory) or [t |-> "sc", v |-> value].                            *)
(***************************************************************************)
EXTENDS Views, RandGen

Fail == [err |-> "E", res |-> <<>>, heap |-> <<>>, w |-> FALSE]
FailIdx == [err |-> "IndexError", res |-> <<>>, heap |-> <<>>, w |-> FALSE]
RView(h) == [err |-> "", res |-> <<[t |-> "view", h |-> h]>>, heap |-> <<>>, w |-> FALSE]
RViews(hs) == [err |-> "", res |-> [i \in 1..Len(hs) |-> [t |-> "view", h |-> hs[i]]], heap |-> <<>>, w |-> FALSE]
RRes(r) == [err |-> "", res |-> r, heap |-> <<>>, w |-> FALSE]
RArr(A) == RRes(<<[t |-> "arr", a |-> A]>>)
RSc(v) == RRes(<<[t |-> "sc", v |-> v]>>)
RWrite(hp) == [err |-> "", res |-> <<>>, heap |-> hp, w |-> TRUE]

\* write the values q (row-major) through handle h
WriteThrough(heap, h, q) ==
  LET c == TLCEval(Cells(h))
      buf == heap[h.b]
      RECURSIVE go(_, _)
      go(bf, k) == IF k > Len(c) THEN bf ELSE go(TLCEval([bf EXCEPT ![c[k] + 1] = q[k]]), k + 1)
  IN [heap EXCEPT ![h.b] = go(buf, 1)]
\* write value at selected row-major positions (sequence of <<pos0, value>>), later wins
WriteAt(heap, h, pv) ==
  LET c == TLCEval(Cells(h))
      RECURSIVE go(_, _)
      go(bf, k) == IF k > Len(pv) THEN bf ELSE go(TLCEval([bf EXCEPT ![c[pv[k][1] + 1] + 1] = pv[k][2]]), k + 1)
  IN [heap EXCEPT ![h.b] = go(heap[h.b], 1)]

ViewOps == {"getitem", "T", "transpose", "permute", "swapaxes", "moveaxis", "moveaxes", "rollaxis",
   "reshape", "ravel", "flip", "fliplr", "flipud", "squeeze", "expand_dims",
   "broadcast_to", "diagonal", "same", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_arrays",
   "rot90", "array_split", "split", "unstack", "xsplit", "mT", "asfortran_view"}

\* the key addresses a single element by integers only
FullInt(h, k) == LET x == ExpandKey(k, Len(h.s)) IN Len(x) = Len(h.s) /\ \A i \in 1..Len(x) : x[i][1] = 0
\* an integer outside its axis (as opposed to another kind of malformed key)
BadInt(h, k) == KeyNEll(k) <= 1 /\ KeyAxes(k) <= Len(h.s)
SetKeyOK(h, k) == KeyOK(h, k) /\ \A i \in 1..Len(k) : k[i][1] \in {0, 1}   \* no ellipsis/newaxis in assignments

MoveAxis(n, src, dst) ==       \* 0-based axis order after moving src to dst
  LET rest == SelectSeq(Iota(n), LAMBDA i : i # src) IN SubSeq(rest, 1, dst) \o <<src>> \o SubSeq(rest, dst + 1, n - 1)

\* start positions of the sections of array_split
Sections(n, k) ==
  LET q == n \div k r == n % k
  IN [i \in 1..k |-> <<(i - 1) * q + MinI(i - 1, r), q + (IF i <= r THEN 1 ELSE 0)>>]
SplitAt(n, idx) ==             \* numpy slicing semantics of split points
  LET cl(x) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < 0 THEN 0 ELSE IF y > n THEN n ELSE y
      m == Len(idx) + 1
  IN [i \in 1..m |-> LET a == IF i = 1 THEN 0 ELSE cl(idx[i - 1])
                         b == IF i = m THEN n ELSE cl(idx[i])
                     IN <<a, IF b > a THEN b - a ELSE 0>>]

ReshapeH(heap, h, s) ==
  IF IsC(h) THEN RView(VReshapeC(h, s)) ELSE RArr(Reshape(HC(heap, h), s))

ViewApply(e, st) ==
  LET h == st.hs[e.a[1]].h
      n == Len(h.s)
      p == e.p
      op == e.op
  IN
  CASE op = "getitem" ->
         IF ~KeyOK(h, p.k) THEN (IF BadInt(h, p.k) THEN FailIdx ELSE Fail)
         ELSE IF p.bare = 0 /\ FullInt(h, p.k)       \* x[i, j, ..]: a Python scalar
         THEN RSc(HC(st.heap, Index(h, p.k)).v[1])
         ELSE RView(Index(h, p.k))
    [] op \in {"T", "transpose"} -> RView(VPerm(h, Rev(Iota(n))))
    [] op = "mT" -> IF n < 2 THEN Fail ELSE RView(VPerm(h, SubSeq(Iota(n), 1, n - 2) \o <<n - 1, n - 2>>))
    [] op = "permute" ->
         LET ax == [i \in 1..Len(p.axes) |-> NormAxis(p.axes[i], n)] IN
         IF Len(ax) = n /\ {ax[i] : i \in 1..n} = 0..(n - 1) THEN RView(VPerm(h, ax)) ELSE Fail
    [] op = "swapaxes" ->
         IF AxisOK(p.a1, n) /\ AxisOK(p.a2, n)
         THEN LET a == NormAxis(p.a1, n) b == NormAxis(p.a2, n)
              IN RView(VPerm(h, [i \in 1..n |-> IF i - 1 = a THEN b ELSE IF i - 1 = b THEN a ELSE i - 1]))
         ELSE Fail
    [] op = "moveaxis" ->
         IF AxisOK(p.a1, n) /\ AxisOK(p.a2, n)
         THEN RView(VPerm(h, MoveAxis(n, NormAxis(p.a1, n), NormAxis(p.a2, n)))) ELSE Fail
    [] op = "moveaxes" ->       \* several axes: the others keep their order, each lands at its destination
         LET a == [i \in 1..Len(p.src) |-> NormAxis(p.src[i], n)]
             b == [i \in 1..Len(p.dst) |-> NormAxis(p.dst[i], n)]
             rest == SelectSeq(Iota(n), LAMBDA x : x \notin Range(a))
             free == SelectSeq(Iota(n), LAMBDA x : x \notin Range(b))
         IN IF /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : AxisOK(p.src[i], n) /\ AxisOK(p.dst[i], n)
               /\ Cardinality(Range(a)) = Len(a) /\ Cardinality(Range(b)) = Len(b)
            THEN RView(VPerm(h, [k \in 1..n |-> IF k - 1 \in Range(b) THEN a[CHOOSE i \in 1..Len(b) : b[i] = k - 1]
                                               ELSE rest[CHOOSE i \in 1..Len(free) : free[i] = k - 1]]))
            ELSE Fail
    [] op = "rollaxis" ->
         IF AxisOK(p.a1, n) /\ p.a2 >= -n /\ p.a2 <= n
         THEN LET a == NormAxis(p.a1, n) s0 == IF p.a2 < 0 THEN p.a2 + n ELSE p.a2
                  s1 == IF a < s0 THEN s0 - 1 ELSE s0
              IN RView(VPerm(h, MoveAxis(n, a, s1))) ELSE Fail
    [] op = "reshape" -> IF ReshapeOK(p.s, Size(h.s)) THEN ReshapeH(st.heap, h, ReshapeTo(p.s, Size(h.s))) ELSE Fail
    [] op = "ravel" -> ReshapeH(st.heap, h, <<Size(h.s)>>)
    [] op = "flip" ->
         IF p.axes = <<>> THEN RView(LET RECURSIVE go(_, _)
                                         go(g, i) == IF i > n THEN g ELSE go(VFlip(g, i), i + 1) IN go(h, 1))
         ELSE IF \A i \in 1..Len(p.axes) : AxisOK(p.axes[i], n)
              THEN RView(LET RECURSIVE go(_, _)
                             go(g, i) == IF i > Len(p.axes) THEN g ELSE go(VFlip(g, NormAxis(p.axes[i], n) + 1), i + 1)
                         IN go(h, 1))
              ELSE Fail
    [] op = "fliplr" -> IF n < 2 THEN Fail ELSE RView(VFlip(h, 2))
    [] op = "flipud" -> IF n < 1 THEN Fail ELSE RView(VFlip(h, 1))
    [] op = "squeeze" ->
         \* deviation from NumPy: an array of one element becomes 1-d, not 0-d
         IF Size(h.s) = 1 THEN RView([h EXCEPT !.s = <<1>>, !.t = <<1>>])
         ELSE RView(LET keep == SelectIdx(h.s, LAMBDA i : h.s[i] # 1) IN
               [h EXCEPT !.s = [i \in 1..Len(keep) |-> h.s[keep[i]]], !.t = [i \in 1..Len(keep) |-> h.t[keep[i]]]])
    [] op = "expand_dims" ->
         IF AxisOK(p.axis, n + 1) THEN RView(VNew(h, NormAxis(p.axis, n + 1) + 1)) ELSE Fail
    [] op = "broadcast_to" -> IF CanBcastTo(h.s, p.s) THEN RView(VBcast(h, p.s)) ELSE Fail
    [] op = "broadcast_arrays" ->
         LET bs == BcastAll([i \in 1..Len(e.a) |-> st.hs[e.a[i]].h.s]) IN
         IF bs[1] THEN RViews([i \in 1..Len(e.a) |-> VBcast(st.hs[e.a[i]].h, bs[2])]) ELSE Fail
    [] op = "diagonal" -> IF n >= 2 THEN RView(VDiag(h)) ELSE Fail
    [] op = "same" -> RView(h)
    \* the atleast_nd family goes through reshape: a view of contiguous arrays only
    [] op = "atleast_1d" -> IF n = 0 THEN ReshapeH(st.heap, h, <<1>>) ELSE RView(h)
    [] op = "atleast_2d" -> IF n = 0 THEN ReshapeH(st.heap, h, <<1, 1>>)
                            ELSE IF n = 1 THEN ReshapeH(st.heap, h, <<1>> \o h.s) ELSE RView(h)
    [] op = "atleast_3d" -> IF n = 0 THEN ReshapeH(st.heap, h, <<1, 1, 1>>)
                            ELSE IF n = 1 THEN ReshapeH(st.heap, h, <<1>> \o h.s \o <<1>>)
                            ELSE IF n = 2 THEN ReshapeH(st.heap, h, h.s \o <<1>>) ELSE RView(h)
    [] op = "rot90" ->
         IF n < 2 THEN Fail
         ELSE LET k == p.k % 4
                  sw == [i \in 1..n |-> IF i = 1 THEN 1 ELSE IF i = 2 THEN 0 ELSE i - 1]
              IN RView(CASE k = 0 -> h
                         [] k = 1 -> VFlip(VPerm(h, sw), 1)
                         [] k = 2 -> VFlip(VFlip(h, 1), 2)
                         [] k = 3 -> VPerm(VFlip(h, 1), sw))
    [] op \in {"array_split", "split"} ->
         IF ~AxisOK(p.axis, n) THEN Fail
         ELSE LET ax == NormAxis(p.axis, n) + 1 IN
              IF p.m = 1
              THEN IF p.k <= 0 \/ (op = "split" /\ h.s[ax] % p.k # 0) THEN Fail
                   ELSE LET q == Sections(h.s[ax], p.k) IN
                        RViews([i \in 1..Len(q) |-> VSlice(h, ax, <<q[i][1], q[i][2], 1>>)])
              ELSE LET q == SplitAt(h.s[ax], p.idx) IN
                   RViews([i \in 1..Len(q) |-> VSlice(h, ax, <<q[i][1], q[i][2], 1>>)])
    [] op = "xsplit" ->        \* hsplit, vsplit, dsplit
         LET ax == CASE p.f = "hsplit" -> IF n = 1 THEN 1 ELSE 2 [] p.f = "vsplit" -> 1 [] p.f = "dsplit" -> 3
             need == CASE p.f = "hsplit" -> 1 [] p.f = "vsplit" -> 2 [] p.f = "dsplit" -> 3
         IN IF n < need THEN Fail
            ELSE IF p.k <= 0 \/ h.s[ax] % p.k # 0 THEN Fail
            ELSE LET q == Sections(h.s[ax], p.k) IN RViews([i \in 1..Len(q) |-> VSlice(h, ax, <<q[i][1], q[i][2], 1>>)])
    [] op = "unstack" ->
         IF n = 0 \/ ~AxisOK(p.axis, n) THEN Fail
         ELSE LET ax == NormAxis(p.axis, n) + 1 IN
              RViews([i \in 1..h.s[ax] |-> VDrop(VSlice(h, ax, <<i - 1, 1, 1>>), ax)])

(* ------------------------------- writers ------------------------------- *)
WriteOps == {"setitem", "setitem_sc", "fill", "put", "place", "putmask", "copyto",
                        "fill_diagonal", "put_along_axis", "msort"}
WriteApply(e, st) ==
  LET h == st.hs[e.a[1]].h
      n == Len(h.s)
      sz == Size(h.s)
      p == e.p
      op == e.op
      C(i) == HC(st.heap, st.hs[e.a[i]].h)
  IN
  CASE op = "setitem_sc" ->
         IF ~SetKeyOK(h, p.k) THEN Fail
         ELSE LET g == Index(h, p.k) IN RWrite(WriteThrough(st.heap, g, Const(Size(g.s), Cast(p.v, p.d, h.d))))
    [] op = "setitem" ->
         IF ~SetKeyOK(h, p.k) THEN Fail
         ELSE LET g == Index(h, p.k) A == C(2) IN
              IF Size(A.s) = 1 THEN RWrite(WriteThrough(st.heap, g, Const(Size(g.s), Cast(A.v[1], A.d, h.d))))
              ELSE IF FullInt(h, p.k) \/ ~CanBcastTo(A.s, g.s) THEN Fail
              ELSE RWrite(WriteThrough(st.heap, g, Cast1(BcastTo(A, g.s), h.d).v))
    [] op = "fill" -> RWrite(WriteThrough(st.heap, h, Const(sz, Cast(p.v, p.d, h.d))))
    [] op = "put" ->           \* flat positions, values repeat
         LET m == Len(p.ind) IN
         IF \E i \in 1..m : p.ind[i] < -sz \/ p.ind[i] >= sz THEN Fail
         ELSE IF Len(p.v) = 0 THEN (IF m = 0 THEN RWrite(st.heap) ELSE Fail)
         ELSE RWrite(WriteAt(st.heap, h, [i \in 1..m |->
                <<IF p.ind[i] < 0 THEN p.ind[i] + sz ELSE p.ind[i], Cast(p.v[((i - 1) % Len(p.v)) + 1], p.d, h.d)>>]))
    [] op = "place" ->         \* k-th true position gets k-th value, repeating
         LET M == C(2) IN
         IF Len(M.v) # sz THEN Fail
         ELSE LET t == SelectIdx(M.v, LAMBDA i : Truthy(M.v[i])) IN
              IF Len(t) = 0 THEN RWrite(st.heap)
              ELSE IF Len(p.v) = 0 THEN Fail
              ELSE RWrite(WriteAt(st.heap, h, [i \in 1..Len(t) |-> <<t[i] - 1, Cast(p.v[((i - 1) % Len(p.v)) + 1], p.d, h.d)>>]))
    [] op = "putmask" ->       \* position k gets value k mod len
         LET M == C(2) IN
         IF Len(M.v) # sz THEN Fail
         ELSE LET t == SelectIdx(M.v, LAMBDA i : Truthy(M.v[i])) IN
              IF Len(t) = 0 THEN RWrite(st.heap)
              ELSE IF Len(p.v) = 0 THEN Fail
              ELSE RWrite(WriteAt(st.heap, h, [i \in 1..Len(t) |-> <<t[i] - 1, Cast(p.v[((t[i] - 1) % Len(p.v)) + 1], p.d, h.d)>>]))
    [] op = "copyto" ->        \* a[2] source, optional a[3] mask
         LET A == C(2) IN
         IF ~CanBcastTo(A.s, h.s) THEN Fail
         ELSE LET q == Cast1(BcastTo(A, h.s), h.d).v IN
              IF Len(e.a) = 2 THEN RWrite(WriteThrough(st.heap, h, q))
              ELSE LET M == C(3) IN
                   IF ~CanBcastTo(M.s, h.s) THEN Fail
                   ELSE LET m == BcastTo(M, h.s).v t == SelectIdx(m, LAMBDA i : Truthy(m[i]))
                        IN RWrite(WriteAt(st.heap, h, [i \in 1..Len(t) |-> <<t[i] - 1, q[t[i]]>>]))
    [] op = "fill_diagonal" ->
         IF n # 2 THEN Fail
         ELSE LET g == VDiag(h) IN RWrite(WriteThrough(st.heap, g, Const(Size(g.s), Cast(p.v, p.d, h.d))))
    [] op = "put_along_axis" -> \* a[2] indices, a[3] values
         LET IX == C(2) V == C(3) IN
         IF ~AxisOK(p.axis, n) \/ Ndim(IX) # n THEN Fail
         ELSE LET ax == NormAxis(p.axis, n) + 1
                  L == h.s[ax]
                  cs == CStrides(IX.s) ch == CStrides(h.s)
              IN IF \E k \in 1..Len(IX.v) : IX.v[k][1] < -L \/ IX.v[k][1] >= L THEN Fail
                 ELSE LET vv == BcastTo(V, IX.s).v IN
                      RWrite(WriteAt(st.heap, h, [k \in 1..Len(IX.v) |->
                        LET ix == Unravel(k - 1, IX.s, cs)
                            j == IF IX.v[k][1] < 0 THEN IX.v[k][1] + L ELSE IX.v[k][1]
                        IN <<RavelIdx([ix EXCEPT ![ax] = j], ch), Cast(vv[k], V.d, h.d)>>]))
    [] op = "msort" ->         \* a.sort(axis): in place, through the view
         IF n = 0 \/ ~AxisOK(p.axis, n) THEN Fail
         ELSE LET A == C(1) ax == NormAxis(p.axis, n)
              IN RWrite(WriteThrough(st.heap, h, AlongMap(A, ax, A.s[ax + 1], A.d, SortVals).v))

(* --------------------------------- Apply -------------------------------- *)
Contents(st, i) == LET x == st.hs[i] IN
  IF x.k = "a" THEN HC(st.heap, x.h) ELSE Arr(<<>>, "py", <<x.v>>)

\* a nested list shows no axes below an empty one
RECURSIVE CutEmpty(_)
CutEmpty(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 0 THEN <<0>> ELSE <<s[1]>> \o CutEmpty(Tail(s))
Itemsize(d) == IF d = "bool" THEN 1 ELSE Width(d) \div 8

\* the results as observed, in order
NewObs(e, n) ==
  LET O == {k \in 1..Len(e.obs) : e.obs[k].i > n} IN
  [j \in 1..Cardinality(O) |-> LET k == CHOOSE k \in O : e.obs[k].i = n + j IN e.obs[k]]
\* writers whose effect is specified by a relation (the same as a function's)
RelWriteOps == {"mpartition"}
RelWriteAs(op) == CASE op = "mpartition" -> "partition"

\* Black-box calls: whatever the function is, its outcome is determined by the contents of its
\* operands.  memo remembers [key, outcome] of every call of the behaviour so far; floats are
\* compared as fixed-point numbers q * 2^(e - 20) with tolerance t * 2^-20 of the largest.
CallKey(e, st) == <<e.p.f, [i \in 1..Len(e.a) |-> Contents(st, e.a[i])]>>
SameVal(x, y) ==
  IF x.t = 0 THEN x.q = y.q
  ELSE LET k == x.e - y.e IN
       /\ k \in -1..1 /\ Len(x.q) = Len(y.q)
       /\ \A i \in 1..Len(x.q) :
            LET big == AbsI(x.q[i]) >= 8000000 \/ AbsI(y.q[i]) >= 8000000
                u == IF k = -1 THEN x.q[i] \div 2 ELSE x.q[i]
                v == IF k = 1 THEN y.q[i] \div 2 ELSE y.q[i]
            IN IF big THEN x.q[i] = y.q[i] ELSE AbsI(u - v) <= x.t
SameRes(x, y) == x.s = y.s /\ x.d = y.d /\ x.t = y.t /\ SameVal(x, y)
SameOutcome(x, y) == /\ x.ok = y.ok /\ Len(x.ap) = Len(y.ap)
                     /\ \A i \in 1..Len(x.ap) : SameRes(x.ap[i], y.ap[i])
Outcome(e) == [ok |-> e.err = "", ap |-> e.ap]
Remembered(e, st) == LET K == TLCEval(CallKey(e, st)) IN SelectIdx(st.memo, LAMBDA i : st.memo[i].key = K)
CallApply(e, st) ==
  LET m == Remembered(e, st)
      R == NewObs(e, Len(st.hs))
  IN IF m # <<>> /\ ~SameOutcome(st.memo[m[1]].out, Outcome(e))
     THEN [Fail EXCEPT !.err = "outcome differs from the same call before"]
     ELSE IF e.err # "" THEN Fail
     ELSE RRes([i \in 1..Len(R) |-> IF R[i].k = "s" THEN [t |-> "sc", v |-> R[i].v[1]]
                                    ELSE [t |-> "arr", a |-> Arr(R[i].s, R[i].d, R[i].v)]])

\* The same expression on large operands, evaluated through different memory paths (p.m): the
\* digests of its result agree and the operands are intact.
BigKey(e) == <<"big", e.p.f, e.p.n, e.p.s, e.p.d, e.p.v>>
BigOut(e) == LET O == {k \in 1..Len(e.obs) : e.obs[k].v # <<>>} IN
             [ok |-> e.err = "", ap |-> IF e.err = "" THEN e.obs[CHOOSE k \in O : \A j \in O : e.obs[k].i <= e.obs[j].i].v ELSE <<>>]
BigApply(e, st) ==
  LET m == SelectIdx(st.memo, LAMBDA i : st.memo[i].key = BigKey(e)) IN
  IF m # <<>> /\ st.memo[m[1]].out # BigOut(e) THEN [Fail EXCEPT !.err = "outcome differs from the same call before"]
  ELSE IF e.err # "" THEN Fail
  ELSE LET v == BigOut(e).ap IN
       RRes(<<[t |-> "arr", a |-> Arr(<<Len(v)>>, "py", v)], [t |-> "arr", a |-> Arr(<<1>>, "py", <<I(1)>>)]>>)

\* Draws: the result must be one the generator's state allows; shuffling writes through its handle
RandOperands(e, st) == [i \in 1..Len(e.a) |-> TLCEval(Contents(st, e.a[i]))]
RandResults(e, st) ==
  IF e.op = "rshuf"
  THEN LET O == {k \in 1..Len(e.obs) : e.obs[k].i = e.a[1]} IN
       IF O = {} THEN <<Contents(st, e.a[1])>> ELSE LET o == e.obs[CHOOSE k \in O : TRUE] IN <<Arr(o.s, o.d, o.v)>>
  ELSE NewObs(e, Len(st.hs))
RandApply(e, st) ==
  LET A == TLCEval(RandOperands(e, st)) R == TLCEval(RandResults(e, st)) IN
  IF e.op \in {"rand", "rshuf"} /\ ~RandPre(e, A) THEN Fail
  ELSE IF e.err # "" THEN [Fail EXCEPT !.err = "a draw with valid parameters"]
  ELSE IF ~RandAllowed(e, A, R, st.rng) THEN [Fail EXCEPT !.err = "inadmissible result"]
  ELSE IF e.op = "rshuf" THEN RWrite(WriteThrough(st.heap, st.hs[e.a[1]].h, R[1].v))
  ELSE RRes([i \in 1..Len(R) |-> IF R[i].k = "s" THEN [t |-> "sc", v |-> R[i].v[1]]
                                  ELSE [t |-> "arr", a |-> Arr(R[i].s, R[i].d, R[i].v)]])

FsApply(e, st) == FsStep(e, [i \in 1..Len(e.a) |-> TLCEval(Contents(st, e.a[i]))], st.fs)
Apply(e, st) ==
  IF e.op = "big" THEN BigApply(e, st) ELSE
  IF e.op = "call" THEN CallApply(e, st) ELSE
  IF e.op \in FsOps THEN (LET r == FsApply(e, st) IN IF r.err # "" THEN Fail ELSE RRes(r.res)) ELSE
  IF e.op \in RandOps THEN RandApply(e, st) ELSE
  IF e.op = "poke" THEN
    (IF st.hs[e.a[1]].k = "s" \/ st.hs[e.a[1]].h.d = "py" THEN RRes(<<>>)
     ELSE LET h == st.hs[e.a[1]].h IN RWrite(WriteThrough(st.heap, h, Const(Size(h.s), Cast(e.p.v, "float64", h.d))))) ELSE
  IF e.op = "shares" THEN
    \* arrays that have a cell in common share memory, arrays in different buffers do not
    (LET h == st.hs[e.a[1]].h g == st.hs[e.a[2]].h
         R == NewObs(e, Len(st.hs))
         hc == {Cells(h)[k] : k \in 1..Size(h.s)} gc == {Cells(g)[k] : k \in 1..Size(g.s)}
         meet == h.b = g.b /\ hc \cap gc # {}
     IN IF e.err # "" \/ (meet /\ R[1].v[1] # One) \/ (h.b # g.b /\ R[1].v[1] # Zero)
        THEN [Fail EXCEPT !.err = "sharing"] ELSE RSc(R[1].v[1])) ELSE
  IF e.op = "array" THEN RArr(Arr(e.p.s, e.p.d, e.p.v))
  ELSE IF e.op = "copy" THEN RArr(Contents(st, e.a[1]))
  ELSE IF e.op = "flatten" THEN RArr(Ravel(Contents(st, e.a[1])))
  ELSE IF e.op = "tolist" THEN LET A == Contents(st, e.a[1]) IN RArr(Arr(CutEmpty(A.s), "py", A.v))
  ELSE IF e.op = "tobytes" THEN RArr(Ravel(Contents(st, e.a[1])))
  ELSE IF e.op = "flat" THEN RArr([Ravel(Contents(st, e.a[1])) EXCEPT !.d = "py"])
  ELSE IF e.op = "iter" THEN
    LET h == st.hs[e.a[1]].h IN RViews([i \in 1..h.s[1] |-> VDrop(VSlice(h, 1, <<i - 1, 1, 1>>), 1)])
  ELSE IF e.op = "meta" THEN
    LET h == st.hs[e.a[1]].h w == Itemsize(h.d) IN
    RArr(Arr(<<4>>, "py", <<I(Len(h.s)), I(Size(h.s)), I(w), I(w * Size(h.s))>>))
  ELSE IF e.op \in ViewOps THEN ViewApply(e, st)
  ELSE IF e.op \in WriteOps THEN WriteApply(e, st)
  ELSE IF e.op \in RelOps THEN
    LET A == [i \in 1..Len(e.a) |-> TLCEval(Contents(st, e.a[i]))]
        R == NewObs(e, Len(st.hs))
    IN IF ~RelPre(e, A) THEN Fail
       ELSE IF e.err = "" /\ RelPost(e, A, R)
            THEN RRes([i \in 1..Len(R) |-> IF R[i].k = "s" THEN [t |-> "sc", v |-> R[i].v[1]]
                                           ELSE [t |-> "arr", a |-> Arr(R[i].s, R[i].d, R[i].v)]])
            ELSE [Fail EXCEPT !.err = "inadmissible result"]
  ELSE IF e.op \in RelWriteOps THEN
    LET h == st.hs[e.a[1]].h
        A == [i \in 1..Len(e.a) |-> TLCEval(Contents(st, e.a[i]))]
        O == {k \in 1..Len(e.obs) : e.obs[k].i = e.a[1]}
        R == IF O = {} THEN A[1] ELSE LET o == e.obs[CHOOSE k \in O : TRUE] IN Arr(o.s, o.d, o.v)
    IN IF ~RelPre([e EXCEPT !.op = RelWriteAs(e.op)], A) THEN Fail
       ELSE IF e.err = "" /\ RelPost([e EXCEPT !.op = RelWriteAs(e.op)], A, <<R>>)
            THEN RWrite(WriteThrough(st.heap, h, R.v))
            ELSE [Fail EXCEPT !.err = "inadmissible result"]
  ELSE LET r == PureApply(e, [i \in 1..Len(e.a) |-> TLCEval(Contents(st, e.a[i]))])
       IN IF r.err # "" THEN [err |-> r.err, res |-> <<>>, heap |-> <<>>, w |-> FALSE] ELSE RRes(r.res)
=============================================================================
