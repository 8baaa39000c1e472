--------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification's state machine: every      *)
(* history of at most Depth calls drawn from a finite alphabet, from every *)
(* starting array of a scenario.  The invariants state, for every history, *)
(* what the specification guarantees; every maximal history is emitted     *)
(* ("PROG ...") and replayed into the real library by the harness.         *)
(***************************************************************************)
EXTENDS Rumpy, Json
CONSTANTS Scenario,            \* which alphabet
          Depth,               \* number of calls after the creation
          Rich                 \* size of the alphabet: 0 (quick) or 1 (thorough)
VARIABLES heap, hs, fs, hist, last, stop
vars == <<heap, hs, fs, hist, last, stop>>

Ev(op, a, p) == [op |-> op, a |-> a, p |-> p]
NoP == [fn |-> 0]
Ar(s, d, v) == Ev("array", <<>>, [s |-> s, d |-> d, v |-> v, via |-> 0])
IotaArr(s, d) == Ar(s, d, [i \in 1..Size(s) |-> I(i + 9)])
Cat(q) == LET RECURSIVE go(_)
              go(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o go(i + 1) IN go(1)
Each(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]

ArrayStarts == CASE Scenario = "views" ->
                 IF Rich = 0 THEN <<IotaArr(<<3>>, "int64"), IotaArr(<<2, 3>>, "int64")>>
                 ELSE <<IotaArr(<<>>, "int64"), IotaArr(<<4>>, "int64"), IotaArr(<<2, 3>>, "float64"), IotaArr(<<3, 1>>, "int16"),
                        IotaArr(<<2, 1, 2>>, "uint8"), IotaArr(<<0, 2>>, "int64")>>
            [] Scenario = "writes" ->
                 IF Rich = 0 THEN <<IotaArr(<<4>>, "int64"), IotaArr(<<2, 2>>, "int32")>>
                 ELSE <<IotaArr(<<4>>, "int64"), IotaArr(<<2, 2>>, "int32"), IotaArr(<<2, 3>>, "float64"), IotaArr(<<2, 1, 2>>, "int8")>>
One1(q) == Each(q, LAMBDA e : <<e>>)
Starts == CASE Scenario = "files" -> <<<<Ar(<<2>>, "int16", <<I(1), I(-2)>>), Ar(<<1, 2>>, "float64", <<<<1, 2>>, I(3)>>)>>>>
            [] OTHER -> One1(ArrayStarts)
(* alphabets of view calls for a handle h of number k *)
Sl(h1, a, h2, b, st) == <<1, h1, a, h2, b, st>>
KeyItems(L) ==                    \* index items of an axis of length L
  <<FullSlice, Sl(0, 0, 0, 0, -1), Sl(1, 1, 0, 0, 1), Sl(0, 0, 1, -1, 1), Sl(0, 0, 0, 0, 2), <<0, 0>>, <<0, -1>>>>
  \o (IF Rich = 0 THEN <<<<0, L>>>> ELSE <<<<0, L>>, <<0, -L - 1>>, Sl(1, -2, 1, 9, 1), Sl(1, 9, 0, 0, -2), Sl(1, 2, 1, 1, 1), Sl(1, -1, 1, -9, -1)>>)
Keys(s) ==
  LET n == Len(s) IN
  Cat([i \in 1..n |-> Each(KeyItems(s[i]), LAMBDA it : [j \in 1..i |-> IF j = i THEN it ELSE FullSlice])])
  \o (IF n = 2 THEN Cat(Each(KeyItems(s[1]), LAMBDA x : Each(KeyItems(s[2]), LAMBDA y : <<x, y>>))) ELSE <<>>)
  \o <<<<<<3>>>>, <<<<2>>>>, <<<<3>>, <<2>>>>>>
  \o (IF n >= 1 THEN <<<<<<3>>, <<0, 0>>>>, <<<<2>>, <<0, 0>>>>, <<<<3>>, Sl(0, 0, 0, 0, -1)>>, <<<<0, 0>>, <<3>>>>>> ELSE <<>>)
  \o <<[i \in 1..(n + 1) |-> <<0, 0>>]>>                        \* too many
FirstKeys(s) == IF Rich = 1 THEN Keys(s)
                ELSE SelectSeq(Keys(s), LAMBDA k : Len(k) <= 1 \/ k[1][1] # 1 \/ k[2][1] # 1)
Perms3(n) == IF n = 2 THEN <<<<0, 1>>, <<1, 0>>>>
             ELSE IF n = 3 THEN <<<<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>>> ELSE <<>>
Factors(z) == IF z = 0 THEN <<<<0>>, <<0, 2>>>> ELSE
  <<<<z>>, <<-1>>, <<1, z>>, <<z, 1>>>> \o
  Cat([d \in 1..z |-> IF d > 1 /\ d < z /\ z % d = 0 THEN <<<<d, z \div d>>, <<-1, d>>>> ELSE <<>>])
  \o <<<<z + 1>>, <<2, -1, -1>>>>
ViewCalls(k, h) ==
  LET n == Len(h.s) a == <<k>> z == Size(h.s) IN
  Each(FirstKeys(h.s), LAMBDA q : Ev("getitem", a, [k |-> q, bare |-> IF Len(q) = 1 THEN 1 ELSE 0]))
  \o <<Ev("T", a, NoP), Ev("ravel", a, NoP), Ev("squeeze", a, NoP), Ev("atleast_2d", a, NoP), Ev("atleast_3d", a, NoP), Ev("copy", a, NoP)>>
  \o Each(Perms3(n), LAMBDA x : Ev("permute", a, [axes |-> x, fn |-> 0]))
  \o (IF z <= 6 THEN Each(Factors(z), LAMBDA x : Ev("reshape", a, [s |-> x, fn |-> 0])) ELSE <<>>)
  \o <<Ev("flip", a, [axes |-> <<>>])>> \o (IF n >= 1 THEN <<Ev("flip", a, [axes |-> <<-1>>])>> ELSE <<>>)
  \o [i \in 1..(n + 1) |-> Ev("expand_dims", a, [axis |-> i - 1])]
  \o (IF n >= 2 THEN <<Ev("diagonal", a, NoP), Ev("mT", a, NoP), Ev("rot90", a, [k |-> 1]), Ev("rot90", a, [k |-> -1]), Ev("rot90", a, [k |-> 2]),
                       Ev("moveaxis", a, [a1 |-> 0, a2 |-> n - 1, fn |-> 0]), Ev("rollaxis", a, [a1 |-> n - 1, a2 |-> 0, fn |-> 0])>> ELSE <<>>)
  \o (IF z <= 6 THEN <<Ev("broadcast_to", a, [s |-> <<2>> \o h.s])>> ELSE <<>>)
  \o (IF n >= 1 THEN <<Ev("array_split", a, [m |-> 1, k |-> 2, idx |-> <<>>, axis |-> n - 1]), Ev("unstack", a, [axis |-> 0]),
                       Ev("array_split", a, [m |-> 1, k |-> 3, idx |-> <<>>, axis |-> 0])>> ELSE <<>>)
Reads(k) == <<Ev("tobytes", <<k>>, NoP), Ev("meta", <<k>>, NoP)>>

(* views and writes for histories of writes *)
SmallViews(k, h) ==
  LET n == Len(h.s) a == <<k>>
      G(q) == Ev("getitem", a, [k |-> q, bare |-> IF Len(q) = 1 THEN 1 ELSE 0]) IN
  (IF n = 0 THEN <<>> ELSE <<G(<<Sl(0, 0, 0, 0, -1)>>), G(<<Sl(1, 1, 0, 0, 1)>>), G(<<<<3>>, Sl(0, 0, 0, 0, 2)>>), G(<<<<0, -1>>>>)>>)
  \o <<Ev("T", a, NoP), Ev("ravel", a, NoP), Ev("copy", a, NoP)>>
  \o (IF n = 2 THEN <<Ev("diagonal", a, NoP)>> ELSE <<>>)
  \o (IF Rich = 1 THEN <<Ev("flip", a, [axes |-> <<>>]), Ev("broadcast_to", a, [s |-> <<2>> \o h.s]), Ev("squeeze", a, NoP)>> ELSE <<>>)
Writes(k, h, arrs) ==
  LET n == Len(h.s) a == <<k>> z == Size(h.s)
      S1 == Sl(0, 0, 0, 0, 1) V == I(-7) IN
  <<Ev("fill", a, [v |-> V, d |-> h.d])>>
  \o (IF z >= 2 THEN <<Ev("put", a, [ind |-> <<0, -1>>, v |-> <<I(1), I(2)>>, d |-> h.d, fn |-> 0]),
                       Ev("put", a, [ind |-> <<1, z>>, v |-> <<V>>, d |-> h.d, fn |-> 0])>> ELSE <<>>)
  \o (IF n >= 1 THEN <<Ev("setitem_sc", a, [k |-> <<<<0, 0>>>>, bare |-> 1, v |-> V, d |-> h.d]),
                       Ev("setitem_sc", a, [k |-> <<Sl(0, 0, 0, 0, -2)>>, bare |-> 1, v |-> V, d |-> h.d]),
                       Ev("setitem_sc", a, [k |-> <<<<0, h.s[1]>>>>, bare |-> 1, v |-> V, d |-> h.d])>> ELSE <<>>)
  \o (IF n = 2 THEN <<Ev("fill_diagonal", a, [v |-> V, d |-> h.d])>> ELSE <<>>)
  \* assignments and copies between handles, which may overlap
  \o Cat(Each(arrs, LAMBDA g : IF g # k /\ hs[g].h.d = h.d /\ Len(hs[g].h.s) <= n
          THEN <<Ev("copyto", <<k, g>>, NoP)>> \o (IF n >= 1 THEN <<Ev("setitem", <<k, g>>, [k |-> <<S1>>, bare |-> 1])>> ELSE <<>>)
          ELSE <<>>))

Base == Len(Starts[1])
Calls == Len(hist) - Base      \* calls made after the creation of the arrays
Arrays == SelectSeq([i \in 1..Len(hs) |-> i], LAMBDA i : hs[i].k = "a" /\ hs[i].h.d # "py" /\ Size(hs[i].h.s) <= 12)
IsWrite(e) == e.op \in WriteOps
(* files: 0 and 2 hold .npy images, 3 holds .npz images, 1 holds raw bytes *)
FileCalls ==
  LET Sv(a, f, z, c, nm) == Ev("fsave", a, [file |-> f, npz |-> z, by |-> "rp", order |-> "C", swap |-> 0, comp |-> c, names |-> nm])
      Ld(f, z) == Ev("fload", <<>>, [file |-> f, npz |-> z, by |-> "rp"])
      Tr(f, z) == Ev("ftrunc", <<>>, [file |-> f, npz |-> z, cut |-> 1])
      Rm(f, z) == Ev("fremove", <<>>, [file |-> f, npz |-> z]) IN
  <<Sv(<<1>>, 0, 0, 0, <<>>), Sv(<<2>>, 0, 0, 0, <<>>), Sv(<<1>>, 2, 0, 0, <<>>), Sv(<<1, 2>>, 3, 1, 0, <<<<97>>>>), Sv(<<2>>, 3, 1, 1, <<>>),
    Ld(0, 0), Ld(2, 0), Ld(3, 1), Tr(0, 0), Tr(3, 1), Rm(0, 0), Rm(3, 1),
    Ev("ftofile", <<1>>, [file |-> 1, sep |-> <<>>, fm |-> [k |-> "none"]]),
    Ev("ftrunc", <<>>, [file |-> 1, cut |-> 1]), Ev("fremove", <<>>, [file |-> 1]),
    Ev("ffromfile", <<>>, [file |-> 1, d |-> "int16", count |-> -1, sep |-> <<>>, off |-> 0])>>
Alphabet ==
  CASE Scenario = "files" -> FileCalls
    [] Scenario = "views" ->
         IF Arrays = <<>> THEN <<>>
         ELSE LET k == Arrays[Len(Arrays)] h == hs[k].h IN
              ViewCalls(k, h)
    [] Scenario = "writes" ->
         IF Calls < Depth - 2 + 1
         THEN LET k == Arrays[Len(Arrays)] IN SmallViews(k, hs[k].h)
              \o (IF Calls = 1 THEN SmallViews(1, hs[1].h) ELSE <<>>)
         ELSE Cat(Each(Arrays, LAMBDA k : Writes(k, hs[k].h, Arrays)))

RECURSIVE Place(_, _, _, _)
Place(hp, hh, res, i) ==
  IF i > Len(res) THEN <<hp, hh>>
  ELSE LET x == res[i] IN
       CASE x.t = "view" -> Place(hp, Append(hh, [k |-> "a", h |-> x.h]), res, i + 1)
         [] x.t = "sc" -> Place(hp, Append(hh, [k |-> "s", v |-> x.v]), res, i + 1)
         [] x.t = "arr" -> Place(Append(hp, x.a.v), Append(hh, [k |-> "a", h |-> Contig(Len(hp) + 1, x.a.s, x.a.d)]), res, i + 1)

Finished == stop \/ Calls >= Depth
Do(e) ==
  LET r == TLCEval(Apply([op |-> e.op, a |-> e.a, p |-> e.p, err |-> "", obs |-> <<>>], [heap |-> heap, hs |-> hs, fs |-> fs]))
      ok == r.err = ""
      pl == TLCEval(IF ok THEN Place(IF r.w THEN r.heap ELSE heap, hs, r.res, 1) ELSE <<heap, hs>>)
      fin == \/ (~ok /\ Scenario # "files") \/ Calls = Depth - 1
             \/ (~r.w /\ r.res # <<>> /\ \A i \in 1..Len(r.res) : r.res[i].t = "sc")
  IN /\ heap' = pl[1] /\ hs' = pl[2] /\ hist' = Append(hist, e)
     /\ last' = IF ok /\ r.w THEN e.a[1] ELSE 0
     /\ stop' = fin
     /\ fs' = IF e.op \in FsOps THEN FsApply([op |-> e.op, a |-> e.a, p |-> e.p, err |-> "", obs |-> <<>>], [heap |-> heap, hs |-> hs, fs |-> fs]).fs ELSE fs
     /\ (fin => PrintT("PROG " \o ToJson(hist' \o (IF Scenario = "views" /\ ok /\ hs'[Len(hs')].k = "a" THEN Reads(Len(hs')) ELSE <<>>))))

Born(q) == LET RECURSIVE go(_, _)
               go(p, i) == IF i > Len(q) THEN p ELSE go(Place(p[1], p[2], Apply(q[i], [heap |-> p[1], hs |-> p[2]]).res, 1), i + 1)
           IN go(<<<<>>, <<>>>>, 1)
Init == \E k \in 1..Len(Starts) :
          LET p == Born(Starts[k]) IN
          heap = p[1] /\ hs = p[2] /\ fs = <<>> /\ hist = Starts[k] /\ last = 0 /\ stop = FALSE
Next == ~stop /\ \E k \in 1..Len(Alphabet) : Do(Alphabet[k])
Spec == Init /\ [][Next]_vars

(* ------------------------------- theorems ------------------------------- *)
\* memory safety of the model: every handle designates cells of its buffer only
InsideBuffer == \A i \in 1..Len(hs) : hs[i].k = "a" => InBounds(hs[i].h, Len(heap[hs[i].h.b]))
\* the shape and the strides of a handle have the same rank, and no extent is negative
WellFormed == \A i \in 1..Len(hs) : hs[i].k = "a" =>
                /\ Len(hs[i].h.s) = Len(hs[i].h.t)
                /\ \A j \in 1..Len(hs[i].h.s) : hs[i].h.s[j] >= 0
\* a view addresses no cell twice unless an axis was broadcast
Injective == \A i \in 1..Len(hs) : hs[i].k = "a" =>
                LET h == hs[i].h c == TLCEval(Cells(h)) IN
                (\A j \in 1..Len(h.s) : h.s[j] <= 1 \/ h.t[j] # 0) => Cardinality(Range(c)) = Len(c)
\* every buffer has exactly one original owner that designates all of it
Owned == \A b \in 1..Len(heap) : \E i \in 1..Len(hs) : hs[i].k = "a" /\ hs[i].h.b = b /\ Size(hs[i].h.s) = Len(heap[b])
\* nothing but a write changes memory; a write changes only cells its target designates
Isolation == [][ \A b \in 1..Len(heap) : \A c \in 1..Len(heap[b]) :
                   heap'[b][c] # heap[b][c] =>
                     /\ last' # 0
                     /\ b = hs[last'].h.b
                     /\ (c - 1) \in Range(Cells(hs[last'].h)) ]_vars
\* handles are immutable: later calls never redirect an existing one
Stable == [][ SubSeq(hs', 1, Len(hs)) = hs ]_vars
\* a file holds what was last stored under its name, whatever happened to the others
Stored(c) == CASE c.k \in {"npy", "npz", "maybe"} -> c.ar [] OTHER -> <<>>
Durable == \A j \in 1..Len(fs) :
  LET ws == SelectIdx(hist, LAMBDA i : hist[i].op \in {"fsave", "ftofile", "ftrunc", "fremove"} /\ hist[i].p.file = fs[j].n)
      w == hist[ws[Len(ws)]] IN
  /\ w.op = "fsave" => Stored(fs[j].c) = [i \in 1..Len(w.a) |-> Contents([heap |-> heap, hs |-> hs], w.a[i])]
  /\ w.op = "ftofile" => fs[j].c.b = ArrayBytes(Contents([heap |-> heap, hs |-> hs], w.a[1]))
  /\ w.op # "fremove"
  /\ \A i \in 1..Len(fs) : fs[i].n = fs[j].n => i = j
\* reading changes no file
ReadOnly == [][ (hist'[Len(hist')].op \in {"fload", "ffromfile"}) => fs' = fs ]_vars
=============================================================================
