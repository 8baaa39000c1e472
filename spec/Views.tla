-------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Array handles: views of a buffer.  A handle is                          *)
(*   [b |-> buffer, o |-> offset, s |-> shape, t |-> strides, d |-> dtype] *)
(* with offset and strides counted in elements.  Every view operation maps *)
(* a handle to a handle of the same buffer; Addr gives the cell a handle   *)
(* designates at an index.                                                 *)
(***************************************************************************)
EXTENDS NDArray

Addr(h, ix) == h.o + DotI(ix, h.t, 1)
Cells(h) ==                    \* addresses in row-major order
  LET cs == CStrides(h.s) IN [k \in 1..Size(h.s) |-> Addr(h, Unravel(k - 1, h.s, cs))]
HC(heap, h) == LET c == TLCEval(Cells(h)) buf == heap[h.b]
               IN Arr(h.s, h.d, [k \in 1..Len(c) |-> buf[c[k] + 1]])
Contig(b, s, d) == [b |-> b, o |-> 0, s |-> s, t |-> CStrides(s), d |-> d]
\* extreme addresses of a handle: every stride contributes at one end of its axis
RECURSIVE ExtLo(_, _)
ExtLo(h, i) == IF i > Len(h.s) THEN 0 ELSE MinI(0, h.t[i] * (h.s[i] - 1)) + ExtLo(h, i + 1)
RECURSIVE ExtHi(_, _)
ExtHi(h, i) == IF i > Len(h.s) THEN 0 ELSE MaxI(0, h.t[i] * (h.s[i] - 1)) + ExtHi(h, i + 1)
InBounds(h, n) == Size(h.s) = 0 \/ (h.o + ExtLo(h, 1) >= 0 /\ h.o + ExtHi(h, 1) < n)
IsC(h) == \/ Size(h.s) = 0
          \/ \A i \in 1..Len(h.s) : h.s[i] = 1 \/ h.t[i] = CStrides(h.s)[i]
IsF(h) == \/ Size(h.s) = 0
          \/ \A i \in 1..Len(h.s) : h.s[i] = 1 \/ h.t[i] = CStrides(Rev(h.s))[Len(h.s) + 1 - i]

VSlice(h, ax, sl) ==           \* ax 1-based, sl = <<start, len, step>>
  [h EXCEPT !.o = IF sl[2] = 0 THEN h.o ELSE h.o + sl[1] * h.t[ax],
            !.s[ax] = sl[2], !.t[ax] = h.t[ax] * sl[3]]
VDrop(h, ax) == [h EXCEPT !.s = RemoveAt(h.s, ax), !.t = RemoveAt(h.t, ax)]
VNew(h, ax) == [h EXCEPT !.s = InsertBefore(h.s, ax, 1), !.t = InsertBefore(h.t, ax, 0)]
VPerm(h, axes) == [h EXCEPT !.s = [i \in 1..Len(axes) |-> h.s[axes[i] + 1]],
                            !.t = [i \in 1..Len(axes) |-> h.t[axes[i] + 1]]]
VBcast(h, s) == LET o == Len(s) - Len(h.s) IN
  [h EXCEPT !.s = s,
            !.t = [i \in 1..Len(s) |-> IF i <= o THEN 0
                                       ELSE IF h.s[i - o] = s[i] THEN h.t[i - o] ELSE 0]]
VReshapeC(h, s) == [h EXCEPT !.s = s, !.t = CStrides(s)]
VFlip(h, ax) == VSlice(h, ax, SliceNorm(0, 0, 0, 0, -1, h.s[ax]))
VDiag(h) == LET n == MinI(h.s[1], h.s[2]) m == Len(h.s) IN     \* of the first two axes, as the last axis
  [h EXCEPT !.s = SubSeq(h.s, 3, m) \o <<n>>, !.t = SubSeq(h.t, 3, m) \o <<h.t[1] + h.t[2]>>]

(* Basic indexing.  Key items (tuples of integers):                        *)
(*  <<0, i>> integer; <<1, h1, start, h2, stop, step>> slice;              *)
(*  <<2>> new axis; <<3>> ellipsis.                                        *)
KeyAxes(k) == Cardinality({i \in 1..Len(k) : k[i][1] \in {0, 1}})
KeyNEll(k) == Cardinality({i \in 1..Len(k) : k[i][1] = 3})
FullSlice == <<1, 0, 0, 0, 0, 1>>
ExpandKey(k, n) ==
  LET e == {i \in 1..Len(k) : k[i][1] = 3} IN
  IF e = {} THEN k
  ELSE LET i == CHOOSE j \in e : TRUE
       IN SubSeq(k, 1, i - 1) \o [j \in 1..(n - KeyAxes(k)) |-> FullSlice] \o SubSeq(k, i + 1, Len(k))
RECURSIVE KeyOKFrom(_, _, _, _)
KeyOKFrom(h, k, i, ax) ==
  IF i > Len(k) THEN TRUE
  ELSE CASE k[i][1] = 0 -> k[i][2] >= -h.s[ax] /\ k[i][2] < h.s[ax] /\ KeyOKFrom(h, k, i + 1, ax + 1)
         [] k[i][1] = 1 -> k[i][6] # 0 /\ KeyOKFrom(h, k, i + 1, ax + 1)
         [] OTHER -> KeyOKFrom(h, k, i + 1, ax)
KeyOK(h, k) == /\ KeyNEll(k) <= 1
               /\ KeyAxes(k) <= Len(h.s)
               /\ KeyOKFrom(h, ExpandKey(k, Len(h.s)), 1, 1)
RECURSIVE IndexFrom(_, _, _, _)
IndexFrom(h, k, i, ax) ==
  IF i > Len(k) THEN h
  ELSE CASE k[i][1] = 0 ->
              LET p == IF k[i][2] < 0 THEN k[i][2] + h.s[ax] ELSE k[i][2]
              IN IndexFrom(VDrop(VSlice(h, ax, <<p, 1, 1>>), ax), k, i + 1, ax)
         [] k[i][1] = 1 ->
              IndexFrom(VSlice(h, ax, SliceNorm(k[i][2], k[i][3], k[i][4], k[i][5], k[i][6], h.s[ax])), k, i + 1, ax + 1)
         [] k[i][1] = 2 -> IndexFrom(VNew(h, ax), k, i + 1, ax + 1)
Index(h, k) == IndexFrom(h, ExpandKey(k, Len(h.s)), 1, 1)
=============================================================================
