--------------------------------- MODULE MCData -------------------------------
(***************************************************************************)
(* Exhaustive small scopes: every array of a scenario (all contents of all *)
(* small shapes over a few values, or all dtypes, or all shapes) is one    *)
(* state.  In every state the laws below - independent characterisations   *)
(* of the specified functions - must hold, and the calls of the scenario   *)
(* on that array are emitted for replay into the real library.             *)
(***************************************************************************)
EXTENDS Rumpy, Json
CONSTANTS Scenario, Rich
VARIABLES x                    \* the instance: a sequence of numbers

DEv(op, a, p) == [op |-> op, a |-> a, p |-> p]
DAr(s, d, v) == DEv("array", <<>>, [s |-> s, d |-> d, v |-> v, via |-> 0])
Seqs(S, n) == [1..n -> S]
UpTo(S, n) == UNION {Seqs(S, k) : k \in 0..n}
N0 == [fn |-> 0]
Opt(b, q) == IF b THEN q ELSE <<>>
MapQ(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
RECURSIVE CatQ(_, _)
CatQ(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o CatQ(q, i + 1)

\* values by number; dtypes by number
FV == <<I(-1), I(0), I(2), NaN>>
DT == <<"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128">>
Vals4(q) == [i \in 1..Len(q) |-> FV[q[i]]]
\* shapes: number of extents then extents
BShapes == UNION {Seqs({1, 2, 3, 0}, k) : k \in 0..(IF Rich = 1 THEN 3 ELSE 2)}

DayYears == {1, 1600, 1899, 1900, 1904, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2099, 2100} \cup (IF Rich = 1 THEN 1890..2110 \cup {2200, 2300, 2400, 9999} ELSE {})
Instances ==
  CASE Scenario = "sort" -> UpTo(1..4, IF Rich = 1 THEN 5 ELSE 4)
    [] Scenario = "sets" -> {<<Len(a)>> \o a \o b : a \in UpTo(1..4, IF Rich = 1 THEN 3 ELSE 2), b \in UpTo(1..4, 2)}
    [] Scenario = "bcast" -> {<<Len(a)>> \o a \o b : a \in BShapes, b \in BShapes}
    [] Scenario = "types" -> Seqs(1..14, 2)
    [] Scenario = "reduce" -> {<<m, n>> \o v : m \in 1..2, n \in 1..2, v \in {<<>>}} \cup
                              {<<2, 2>> \o v : v \in Seqs(1..(IF Rich = 1 THEN 4 ELSE 3), 4)} \cup
                              {<<1, 3>> \o v : v \in Seqs(1..4, 3)} \cup {<<0, n>> : n \in 0..2} \cup {<<n, 0>> : n \in 1..2}
    [] Scenario = "rearr" -> Seqs(0..3, 2) \cup Seqs(0..(IF Rich = 1 THEN 5 ELSE 3), 1) \cup (IF Rich = 1 THEN Seqs(1..2, 3) ELSE {<<2, 1, 2>>})
    [] Scenario = "text" -> UpTo(1..2, IF Rich = 1 THEN 3 ELSE 2)
    [] Scenario = "floats" -> {<<d, 1, i>> : d \in 1..3, i \in 1..14} \cup {<<d, 2, i>> : d \in 1..3, i \in 1..10}
    [] Scenario = "contract" -> Seqs(1..3, 4)
    [] Scenario = "casts" -> Seqs(1..14, 2)
    [] Scenario = "dates" -> {<<1, y, m>> : y \in DayYears, m \in 1..12} \cup {<<2, u, n>> : u \in 4..10, n \in {-25509, -1, 0, 11016, 11017, 19782}} \cup {<<3, m>> : m \in 1..(IF Rich = 1 THEN 127 ELSE 40)} \cup {<<4, u, w>> : u \in 1..10, w \in 1..10}
    [] Scenario = "gather" -> {<<1>> \o b : b \in Seqs(0..1, 6)} \cup {<<2, i, j>> : i \in -4..3, j \in -4..3}
    [] Scenario = "grids" -> {<<1>> \o s : s \in Seqs(1..3, 1) \cup Seqs(1..3, 2) \cup Seqs(1..(IF Rich = 1 THEN 4 ELSE 2), 3)} \cup {<<2, a, b, c>> : a \in -2..2, b \in -3..4, c \in {-2, -1, 0, 1, 2, 3}} \cup {<<3, n, m, k>> : n \in 0..3, m \in 0..3, k \in -4..4} \cup {<<4, b>> : b \in 0..(IF Rich = 1 THEN 255 ELSE 63)}
    [] Scenario = "nans" -> {<<2, 2>> \o v : v \in Seqs(1..4, 4)} \cup {<<1, 3>> \o v : v \in Seqs(1..4, 3)} \cup (IF Rich = 1 THEN {<<2, 3>> \o v : v \in Seqs({1, 3, 4}, 6)} ELSE {})
    [] Scenario = "diffs" -> {<<d>> \o v : d \in 1..2, v \in UpTo(1..4, IF Rich = 1 THEN 5 ELSE 4)}
    [] Scenario = "stats" -> {<<1>> \o v : v \in UpTo(1..4, 4)} \cup {<<2, Len(a)>> \o a \o b : a \in UpTo(1..3, 3), b \in UpTo(1..3, IF Rich = 1 THEN 3 ELSE 2)}
    [] Scenario = "rng" -> UpTo(1..8, IF Rich = 1 THEN 4 ELSE 3)
    [] Scenario = "ints" -> {<<d, a, b>> : d \in 1..2, a \in 0..(IF Rich = 1 THEN 255 ELSE 31), b \in 0..15}

(* --------------------------------- sort --------------------------------- *)
SeqX == Vals4(x)
AxN == [none |-> 0, axis |-> -1, fn |-> 0]
Ordered(q) == \A i \in 1..(Len(q) - 1) : Cmp(q[i], q[i + 1]) <= 0
SortLaws ==
  LET q == SeqX n == Len(q) s == TLCEval(SortVals(q)) o == TLCEval(ArgSort(q)) u == TLCEval(UniqueV(q)) IN
  /\ Ordered(s) /\ IsPermOf(q, s) /\ SortVals(s) = s
  /\ IsIndexPerm(o, n)
  /\ [i \in 1..n |-> q[o[i][1] + 1]] = s
  \* stability: equal elements keep their order
  /\ \A i \in 1..(n - 1) : s[i] = s[i + 1] => o[i][1] < o[i + 1][1]
  \* distinct elements in strictly increasing order, the same set
  /\ \A i \in 1..(Len(u) - 1) : Cmp(u[i], u[i + 1]) < 0
  /\ Range(u) = Range(q)
  \* searchsorted: insertion keeps the order, left and right bracket the equal ones
  /\ \A k \in 1..4 : LET v == FV[k] l == InsPos(s, v, FALSE) r == InsPos(s, v, TRUE) IN
       /\ l <= r /\ r - l = Cardinality({i \in 1..n : q[i] = v})
       /\ Ordered(SubSeq(s, 1, l) \o <<v>> \o SubSeq(s, l + 1, n))
       /\ Ordered(SubSeq(s, 1, r) \o <<v>> \o SubSeq(s, r + 1, n))
  \* a sorted sequence is partitioned everywhere
  /\ \A k \in 0..(n - 1) : Partitioned(s, k)
  /\ (n > 0 => MinV(NoNaN(q) \o (IF NoNaN(q) = <<>> THEN q ELSE <<>>)) = s[1])
SortProg ==
  LET n == Len(x) a == <<1>> IN
  <<DAr(<<n>>, "float64", SeqX), DEv("sort", a, AxN), DEv("argsort", a, AxN)>>
  \o MapQ(<<"unique", "unique_counts", "unique_inverse", "unique_all">>, LAMBDA f : DEv("unique", a, [f |-> f]))
  \o <<DAr(<<4>>, "float64", FV)>>
  \o CatQ([k \in 1..n |-> <<DEv("partition", a, [kth |-> k - 1, none |-> 0, axis |-> -1]), DEv("argpartition", a, [kth |-> k - 1, none |-> 0, axis |-> -1])>>], 1)
  \o <<DEv("searchsorted", <<2, 13>>, [right |-> 0]), DEv("searchsorted", <<2, 13>>, [right |-> 1])>>

(* --------------------------------- types -------------------------------- *)
Dn(i) == DT[i]
TypeLaws ==
  LET a == Dn(x[1]) b == Dn(x[2]) j == Promote(a, b) IN
  /\ j = Promote(b, a) /\ Promote(a, a) = a
  /\ Promote(a, j) = j /\ Promote(b, j) = j
  \* the join is the least dtype both can be cast to safely, among those reached by promotion
  /\ CanCast(a, j, "safe") /\ CanCast(b, j, "safe")
  /\ \A k \in 1..14 : (CanCast(a, Dn(k), "safe") /\ CanCast(b, Dn(k), "safe")) => CanCast(j, Dn(k), "safe") \/ KindRank(Dn(k)) >= 3
  \* the casting rules are nested
  /\ CanCast(a, b, "no") => CanCast(a, b, "safe")
  /\ CanCast(a, b, "safe") => CanCast(a, b, "same_kind")
  /\ CanCast(a, b, "safe") /\ CanCast(b, a, "safe") => a = b
  /\ \A k \in 1..14 : CanCast(a, b, "safe") /\ CanCast(b, Dn(k), "safe") => CanCast(a, Dn(k), "safe")
  \* results of several operands do not depend on their order
  /\ \A k \in 1..14 : LET c == Dn(k) IN JoinAll(<<a, b, c>>) = JoinAll(<<c, a, b>>) /\ JoinAll(<<a, b, c>>) = JoinAll(<<b, a, c>>)
  \* a value that survives a safe cast between integers is unchanged
  /\ (Kind(a) \in {"i", "u"} /\ Kind(b) \in {"i", "u"} /\ CanCast(a, b, "safe")) => Cast(Cast(I(7), a, b), b, a) = I(7)
OneDt(d) == IF Kind(d) = "c" THEN Cx(One, Zero) ELSE One
TypeProg ==
  LET a == Dn(x[1]) b == Dn(x[2]) IN
  <<DAr(<<2>>, a, <<OneDt(a), OneDt(a)>>), DAr(<<2>>, b, <<OneDt(b), OneDt(b)>>),
    DEv("promote", <<>>, [d1 |-> a, d2 |-> b, f |-> "promote_types"])>>
  \o MapQ(<<"no", "equiv", "safe", "same_kind", "unsafe">>, LAMBDA c : DEv("dtq", <<>>, [q |-> "can_cast", d1 |-> a, d2 |-> b, c |-> c, pos |-> 0]))
  \o <<DEv("dtq", <<>>, [q |-> "result_type", ds |-> <<a, b>>, arr |-> <<0, 1>>])>>
  \o Opt(a # "bool" /\ b # "bool", <<DEv("bin", <<1, 2>>, [f |-> "add", m |-> 0, sz |-> 0]), DEv("bin", <<1, 2>>, [f |-> "multiply", m |-> 0, sz |-> 0])>>)
  \o <<DEv("bin", <<1, 2>>, [f |-> "equal", m |-> 0, sz |-> 0]),
       DEv("join", <<1, 2>>, [f |-> "concatenate", axis |-> 0])>>

(* ------------------------------- broadcast ------------------------------ *)
ShA == SubSeq(x, 2, 1 + x[1])
ShB == SubSeq(x, 2 + x[1], Len(x))
BcastLaws ==
  LET a == ShA b == ShB r == BcastAll(<<a, b>>) l == BcastAll(<<b, a>>) IN
  /\ r = l \/ (~r[1] /\ ~l[1])
  /\ BcastAll(<<a, a>>) = <<TRUE, a>>
  /\ BcastAll(<<a, <<>>>>) = <<TRUE, a>>
  /\ r[1] <=> \A i \in 1..MinI(Len(a), Len(b)) :
                LET m == a[Len(a) + 1 - i] n == b[Len(b) + 1 - i] IN m = n \/ m = 1 \/ n = 1
  /\ r[1] => /\ CanBcastTo(a, r[2]) /\ CanBcastTo(b, r[2])
             /\ Len(r[2]) = MaxI(Len(a), Len(b))
             /\ BcastAll(<<a, r[2]>>) = r
             \* an element of the broadcast array is the element named by the clipped index
             /\ LET A == Arr(a, "int64", [k \in 1..Size(a) |-> I(k)]) Bc == TLCEval(BcastTo(A, r[2])) cs == CStrides(r[2]) ca == CStrides(a) off == Len(r[2]) - Len(a) IN
                \A k \in 1..Size(r[2]) : LET ix == Unravel(k - 1, r[2], cs) IN
                   Bc.v[k] = A.v[1 + RavelIdx([i \in 1..Len(a) |-> IF a[i] = 1 THEN 0 ELSE ix[off + i]], ca)]
             /\ CanBcastTo(a, b) => r[2] = b
BcastProg ==
  LET a == ShA b == ShB IN
  <<DAr(a, "int64", [k \in 1..Size(a) |-> I(k)]), DAr(b, "int64", [k \in 1..Size(b) |-> I(10 * k)]),
    DEv("bin", <<1, 2>>, [f |-> "add", m |-> 0, sz |-> 0]), DEv("bin", <<2, 1>>, [f |-> "less", m |-> 0, sz |-> 0]),
    DEv("broadcast_shapes", <<>>, [ss |-> <<a, b>>])>>
  \o <<DEv("broadcast_to", <<1>>, [s |-> b])>>

(* ------------------------------- integers ------------------------------- *)
\* all values of an 8-bit type against a set of operands
ID == IF x[1] = 1 THEN "int8" ELSE "uint8"
IvA == Wrap(ID, I(IF Rich = 1 THEN x[2] - 128 ELSE x[2] * 8 - 125))
IvB == Wrap(ID, I(<<-128, -127, -7, -3, -2, -1, 0, 1, 2, 3, 5, 8, 16, 100, 126, 127>>[x[3] + 1]))
IntLaws ==
  LET a == IvA b == IvB d == ID
      sum == Bin("add", d, a, b) dif == Bin("subtract", d, a, b)
      quo == Bin("floor_divide", d, a, b) rem == Bin("remainder", d, a, b) IN
  /\ sum = Bin("add", d, b, a) /\ Bin("subtract", d, sum, b) = a /\ Bin("add", d, dif, b) = a
  /\ Bin("multiply", d, a, b) = Bin("multiply", d, b, a)
  /\ Neg(d, Neg(d, a)) = a /\ Bin("add", d, a, Neg(d, a)) = Zero
  \* division with remainder: a = q * b + r, r of the sign of b and smaller than b
  /\ b # Zero => /\ Bin("add", d, Bin("multiply", d, quo, b), rem) = a
                 /\ (rem = Zero \/ (Sgn(rem) = Sgn(b) /\ AbsI(rem[1]) < AbsI(b[1])))
  /\ Bin("bitwise_xor", d, Bin("bitwise_xor", d, a, b), b) = a
  /\ Bin("bitwise_or", d, a, b) = Wrap(d, I(Bin("bitwise_xor", d, a, b)[1] + Bin("bitwise_and", d, a, b)[1]))
  /\ {Bin("maximum", d, a, b), Bin("minimum", d, a, b)} = {a, b}
  /\ CmpV("less", a, b) = (Bin("maximum", d, a, b) = b /\ a # b)
IntProg ==
  <<DAr(<<1>>, ID, <<IvA>>), DAr(<<1>>, ID, <<IvB>>)>>
  \o MapQ(<<"add", "subtract", "multiply", "floor_divide", "remainder", "bitwise_and", "bitwise_or", "bitwise_xor", "maximum", "minimum", "less", "equal", "greater_equal">>,
          LAMBDA f : DEv("bin", <<1, 2>>, [f |-> f, m |-> 0, sz |-> 0]))
  \o MapQ(<<"negative", "absolute", "sign", "square", "invert">>, LAMBDA f : DEv("un", <<1>>, [f |-> f, m |-> 0, sz |-> 0]))

(* --------------------------------- reduce ------------------------------- *)
RdS == <<x[1], x[2]>>
RdQ == IF Len(x) = 2 THEN [k \in 1..Size(RdS) |-> FV[(k % 3) + 1]] ELSE Vals4(SubSeq(x, 3, Len(x)))
RA0 == Arr(RdS, "float64", RdQ)
RdP(none, ax, keep) == [none |-> none, ax |-> ax, keep |-> keep, m |-> keep]
ReduceLaws ==
  LET A == RA0
      R(f, ax) == RedApply(A, [f |-> f] @@ RdP(0, <<ax>>, 1))
      Full(f) == RedApply(A, [f |-> f] @@ RdP(1, <<>>, 0)) IN
  /\ \A f \in {"sum", "prod"} :
       \* reducing one axis and then the other is reducing all
       LET r0 == RedApply(R(f, 0).res[1].a, [f |-> f] @@ RdP(1, <<>>, 0))
           r1 == RedApply(R(f, 1).res[1].a, [f |-> f] @@ RdP(1, <<>>, 0)) IN
       r0 = Full(f) /\ r1 = Full(f) /\ RedApply(A, [f |-> f] @@ RdP(0, <<1, 0>>, 1)) = RedApply(A, [f |-> f] @@ RdP(0, <<0, 1>>, 1))
  /\ Size(RdS) > 0 => \A f \in {"max", "min"} : RedApply(R(f, 0).res[1].a, [f |-> f] @@ RdP(1, <<>>, 0)) = Full(f)
  \* transposition exchanges the axes
  /\ \A f \in {"sum", "prod", "all", "any", "count_nonzero"} :
       R(f, 0).res[1].a.v = RedApply(Arr(<<RdS[2], RdS[1]>>, "float64", [k \in 1..Size(RdS) |-> A.v[1 + (((k - 1) % RdS[1]) * RdS[2]) + ((k - 1) \div RdS[1])]]), [f |-> f] @@ RdP(0, <<1>>, 1)).res[1].a.v
  \* without NaN the NaN-aware variants agree with the plain ones
  /\ (~AnyNaN(A.v) /\ Size(RdS) > 0) => \A f \in {"sum", "prod", "max", "min", "argmax", "argmin"} : Full("nan" \o f) = Full(f)
  \* the last prefix sum is the sum
  /\ \A f \in {<<"cumsum", "sum">>, <<"cumprod", "prod">>} :
       A.v # <<>> => LET c == CumApply(A, [f |-> f[1], none |-> 1, axis |-> 0, init |-> 0, m |-> 0]).res[1].a.v IN c[Len(c)] = Full(f[2]).res[1].v
  \* extrema are attained, at the first position reported
  /\ (~AnyNaN(A.v) /\ Size(RdS) > 0) => A.v[Full("argmax").res[1].v[1] + 1] = Full("max").res[1].v
ReduceProg ==
  <<DAr(RdS, "float64", RdQ)>>
  \o CatQ(MapQ(<<"sum", "prod", "max", "min", "argmax", "argmin", "nansum", "nanmax", "nanargmin", "mean", "var", "all", "any">>,
       LAMBDA f : <<DEv("red", <<1>>, [f |-> f] @@ RdP(1, <<>>, 0)), DEv("red", <<1>>, [f |-> f] @@ RdP(0, <<0>>, 0)), DEv("red", <<1>>, [f |-> f] @@ RdP(0, <<1>>, 0)),
                    DEv("red", <<1>>, [f |-> f] @@ RdP(0, <<-1>>, 0))>>), 1)
  \o CatQ(MapQ(<<"cumsum", "cumprod", "nancumsum">>, LAMBDA f : <<DEv("cum", <<1>>, [f |-> f, none |-> 0, axis |-> 0, init |-> 0, m |-> 0]), DEv("cum", <<1>>, [f |-> f, none |-> 0, axis |-> 1, init |-> 0, m |-> 0])>>), 1)
  \o <<DEv("diff", <<1>>, [ord |-> 1, axis |-> 0]), DEv("diff", <<1>>, [ord |-> 1, axis |-> 1])>>

(* ---------------------------------- text -------------------------------- *)
\* all words of up to four (five) letters a, b; the instance is the word searched for
TxWords == LET W(n) == [k \in 1..Pow2(n) |-> [i \in 1..n |-> IF ((k - 1) \div Pow2(n - i)) % 2 = 0 THEN 97 ELSE 98]]
         IN CatQ([n \in 1..(IF Rich = 1 THEN 6 ELSE 5) |-> W(n - 1)], 1)
Needle == [i \in 1..Len(x) |-> 96 + x[i]]
Bnds == <<<<>>, <<0>>, <<1>>, <<3>>, <<-1>>, <<-3>>, <<9>>, <<-9>>>>
TextLaws ==
  LET nd == Needle n == Len(nd) IN
  \A w \in 1..Len(TxWords) : LET q == TxWords[w] IN
    /\ \A i \in 1..8, j \in 1..8 :
         LET fnd == TextFind("find", q, nd, Bnds[i], Bnds[j]) rf == TextFind("rfind", q, nd, Bnds[i], Bnds[j])
             cnt == TextFind("count", q, nd, Bnds[i], Bnds[j]) IN
         /\ (fnd = -1) <=> (rf = -1)
         /\ (fnd = -1) <=> (cnt = 0)
         /\ fnd <= rf /\ (fnd >= 0 => SubSeq(q, fnd + 1, fnd + n) = nd /\ SubSeq(q, rf + 1, rf + n) = nd)
         /\ (cnt = 1 /\ n > 0) => rf < fnd + n
         /\ TextFind("startswith", q, nd, Bnds[i], Bnds[j]) = 1 => fnd = SliceLo(Len(q), Bnds[i])
         /\ TextFind("endswith", q, nd, Bnds[i], Bnds[j]) = 1 => rf + n = SliceHi(Len(q), Bnds[j])
    \* replacing changes the length by the number of occurrences and leaves none of a letter
    /\ (n > 0 => Len(TextReplace(q, nd, <<99, 99, 99>>, <<>>)) = Len(q) + TextFind("count", q, nd, <<>>, <<>>) * (3 - n))
    /\ (n > 0 => TextReplace(TextReplace(q, nd, <<99>>, <<>>), <<99>>, nd, <<>>) = q)
    /\ (n > 0 => LET t == TextPart("partition", q, nd) r == TextPart("rpartition", q, nd) IN
                 t[1] \o t[2] \o t[3] = q /\ r[1] \o r[2] \o r[3] = q)
    /\ LET t == TextStrip("strip", q, LAMBDA ch : ch \in Range(nd)) IN
       /\ (t # <<>> => t[1] \notin Range(nd) /\ t[Len(t)] \notin Range(nd))
       /\ TextStrip("lstrip", TextStrip("rstrip", q, LAMBDA ch : ch \in Range(nd)), LAMBDA ch : ch \in Range(nd)) = t
    /\ TextUn("lower", TextUn("upper", q)) = q /\ TextUn("swapcase", q) = TextUn("upper", q)
    /\ LexCmp(q, nd) = -LexCmp(nd, q) /\ ((LexCmp(q, nd) = 0) <=> (q = nd))
    /\ Len(TextPad("center", q, 6, 42)) = MaxI(6, Len(q)) /\ TextFind("count", TextPad("ljust", q, 6, 42), q, <<>>, <<>>) >= 1
TextProg ==
  LET nd == Needle n == Len(nd) m == Len(TxWords) IN
  <<DAr(<<m>>, "str", TxWords)>>
  \o CatQ(MapQ(<<"find", "rfind", "count", "startswith", "endswith">>, LAMBDA f :
       CatQ(MapQ(Bnds, LAMBDA lo : MapQ(IF lo = <<>> THEN <<<<>>>> ELSE Bnds, LAMBDA up :
         DEv("txfind", <<1>>, [f |-> f, q |-> nd, lo |-> lo, up |-> up]))), 1)), 1)
  \o CatQ(MapQ(<<<<>>, <<0>>, <<1>>, <<2>>>>, LAMBDA c : <<DEv("txreplace", <<1>>, [q |-> nd, r |-> <<97, 98>>, cnt |-> c]), DEv("txreplace", <<1>>, [q |-> nd, r |-> <<>>, cnt |-> c])>>), 1)
  \o <<DEv("txpart", <<1>>, [f |-> "partition", q |-> nd]), DEv("txpart", <<1>>, [f |-> "rpartition", q |-> nd])>>
  \o MapQ(<<"strip", "lstrip", "rstrip">>, LAMBDA f : DEv("txstrip", <<1>>, [f |-> f, has |-> 1, q |-> nd]))


(* ------------------------------ rearranging ----------------------------- *)
RaA == Arr(x, "int64", [k \in 1..Size(x) |-> I(k)])
Rr(p) == RearrApply(RaA, p)
RearrLaws ==
  LET A == RaA n == Ndim(A) IN
  /\ \A k \in -4..4 :
       /\ RearrApply(Rr([f |-> "roll", none |-> 1, shift |-> k, axis |-> 0]), [f |-> "roll", none |-> 1, shift |-> -k, axis |-> 0]) = A
       /\ \A ax \in 0..(n - 1) :
            LET r == Rr([f |-> "roll", none |-> 0, shift |-> k, axis |-> ax]) IN
            /\ RearrApply(r, [f |-> "roll", none |-> 0, shift |-> -k, axis |-> ax]) = A
            /\ r = Rr([f |-> "roll", none |-> 0, shift |-> k, axis |-> ax - n])
            /\ IsPermOf(A.v, r.v)
  \* splitting and joining again is the identity; joining is associative
  /\ \A ax \in 0..(n - 1) :
       /\ \A c \in 0..x[ax + 1] :
            LET lo == AxisMap(A, ax, c, LAMBDA i : i) up == AxisMap(A, ax, x[ax + 1] - c, LAMBDA i : c + i) IN Concat(<<lo, up>>, ax) = A
       /\ Concat(<<Concat(<<A, A>>, ax), A>>, ax) = Concat(<<A, A, A>>, ax)
       /\ Concat(<<A, A>>, ax) = TileA(A, [i \in 1..n |-> IF i = ax + 1 THEN 2 ELSE 1])
       /\ Stack(<<A, A>>, ax).s = InsertBefore(x, ax + 1, 2)
       /\ \A c \in 0..(x[ax + 1] - 1) :
            \* deleting what was inserted restores the array
            LET V == Arr(<<>>, "int64", <<I(99)>>) ins == InsertA(A, V, [none |-> 0, axis |-> ax, ind |-> c]) IN
            DeleteA(ins, [none |-> 0, axis |-> ax, ind |-> c]) = A
       /\ RepeatA(A, [none |-> 0, axis |-> ax, reps |-> 1]) = A
       /\ RepeatA(RepeatA(A, [none |-> 0, axis |-> ax, reps |-> 2]), [none |-> 0, axis |-> ax, reps |-> 3]) = RepeatA(A, [none |-> 0, axis |-> ax, reps |-> 6])
       \* gathering with every index is the identity, with reversed indices an involution
       /\ TakeA(A, Arr(<<x[ax + 1]>>, "int64", [i \in 1..x[ax + 1] |-> I(i - 1 - x[ax + 1])]), [none |-> 0, axis |-> ax]) = A
  /\ n = 2 => \A k \in -3..3 :
       LET lo == TriA(A, k, 1) up == TriA(A, k + 1, 0) IN
       [i \in 1..Len(A.v) |-> I(lo.v[i][1] + up.v[i][1])] = A.v
  /\ TileA(TileA(A, <<2>>), <<3>>) = TileA(A, <<6>>)
  /\ ResizeA(A, <<Size(x)>>) = Ravel(A)
RearrProg ==
  LET n == Len(x) a == <<1>> RE(p) == DEv("rearr", a, p) IN
  <<DAr(x, "int64", [k \in 1..Size(x) |-> I(k)])>>
  \o CatQ([k \in 1..7 |-> <<RE([f |-> "roll", none |-> 1, shift |-> k - 4, axis |-> 0])>> \o [ax \in 1..n |-> RE([f |-> "roll", none |-> 0, shift |-> k - 4, axis |-> ax - 1])]], 1)
  \o CatQ([ax \in 1..n |->
       <<DEv("join", <<1, 1>>, [f |-> "concatenate", axis |-> ax - 1]), DEv("join", <<1, 1, 1>>, [f |-> "stack", axis |-> ax - 1]),
         RE([f |-> "repeat", none |-> 0, axis |-> ax - 1, reps |-> 2]), RE([f |-> "repeat", none |-> 0, axis |-> ax - 1, reps |-> 0])>>
       \o [c \in 1..(x[ax] + 2) |-> RE([f |-> "delete", none |-> 0, axis |-> ax - 1, ind |-> c - 2])]], 1)
  \o <<RE([f |-> "repeat", none |-> 1, axis |-> 0, reps |-> 3])>>
  \o MapQ(<<<<2>>, <<2, 1>>, <<1, 3>>, <<2, 2, 2>>, <<0>>>>, LAMBDA r : RE([f |-> "tile", reps |-> r]))
  \o Opt(n >= 2, CatQ([k \in 1..5 |-> <<RE([f |-> "tril", k |-> k - 3]), RE([f |-> "triu", k |-> k - 3])>>], 1))
  \o MapQ(<<<<3>>, <<2, 4>>, <<7>>, <<0>>>>, LAMBDA r : RE([f |-> "resize", s |-> r]))

(* ------------------------------ set functions --------------------------- *)
SetA == Vals4(ShA)
SetB == Vals4(ShB)
SetR(f, p, q) == SetApply(Arr(<<Len(p)>>, "float64", p), Arr(<<Len(q)>>, "float64", q), [f |-> f]).res[1].a.v
SetLaws ==
  LET a == SetA b == SetB num(S) == {v \in S : ~IsNaN(v)}
      un == SetR("union1d", a, b) it == SetR("intersect1d", a, b) df == SetR("setdiff1d", a, b) xr == SetR("setxor1d", a, b) IN
  /\ num(Range(un)) = num(Range(a) \cup Range(b))
  /\ num(Range(it)) = num(Range(a) \cap Range(b))
  /\ num(Range(df)) = num(Range(a) \ Range(b))
  /\ num(Range(xr)) = num((Range(a) \ Range(b)) \cup (Range(b) \ Range(a)))
  /\ \A r \in {un, it, df, xr} : Ordered(r)
  /\ SetR("union1d", b, a) = un /\ SetR("intersect1d", b, a) = it
SetProg ==
  <<DAr(<<Len(SetA)>>, "float64", SetA), DAr(<<Len(SetB)>>, "float64", SetB)>>
  \o MapQ(<<"union1d", "intersect1d", "setdiff1d", "setxor1d">>, LAMBDA f : DEv("set2", <<1, 2>>, [f |-> f]))
  \o CatQ(MapQ(<<"isin", "in1d">>, LAMBDA f : <<DEv("isin", <<1, 2>>, [f |-> f, inv |-> 0]), DEv("isin", <<1, 2>>, [f |-> f, inv |-> 1])>>), 1)

(* --------------------------------- floats ------------------------------- *)
\* every special value against every special value; group 1 tells the zeros apart, group 2 does not
FlD == <<"float64", "float32", "float16">>[x[1]]
NZer == <<0, -1>>              \* minus zero
FlV == IF x[2] = 1 THEN <<NaN, PInf, NInf, Zero, NZer, I(1), I(-1), I(2), I(-2), I(4), <<1, 2>>, <<-1, 2>>, <<-5, 2>>, I(7)>>
       ELSE <<NaN, PInf, NInf, Zero, I(1), I(-1), I(2), <<-1, 2>>, <<-5, 2>>, I(7)>>
FlA == FlV[x[3]]
FlF == IF x[2] = 1 THEN <<"add", "subtract", "multiply", "floor_divide", "remainder", "fmod", "copysign">> ELSE <<"maximum", "minimum", "fmax", "fmin">>
FlC == <<"equal", "not_equal", "less", "less_equal", "greater", "greater_equal">>
Pow2Fin(v) == IsNaN(v) \/ IsInf(v) \/ IsZ(v) \/ AbsI(v[1]) \in {1, 2, 4}
FloatLaws ==
  LET a == FlA IN
  \A j \in 1..Len(FlV) : LET b == FlV[j] B2(f) == BinFloat(f, a, b) IN
    \* comparisons: exactly one of <, =, > unless unordered
    /\ LET n == Cardinality({f \in {"less", "equal", "greater"} : CmpV(f, a, b)}) IN n = IF IsNaN(a) \/ IsNaN(b) THEN 0 ELSE 1
    /\ CmpV("not_equal", a, b) = ~CmpV("equal", a, b)
    /\ CmpV("less_equal", a, b) = (CmpV("less", a, b) \/ CmpV("equal", a, b))
    /\ CmpV("less", a, b) = CmpV("greater", b, a)
    \* arithmetic: NaN is absorbing, sums and products commute
    /\ \A f \in {"add", "subtract", "multiply", "floor_divide", "remainder", "fmod", "maximum", "minimum"} : (IsNaN(a) \/ IsNaN(b)) => IsNaN(B2(f))
    /\ \A f \in {"add", "multiply"} : B2(f) = BinFloat(f, b, a)
    /\ SNeg(SMul(a, b)) = SMul(SNeg(a), b) \/ IsNaN(SMul(a, b))
    /\ SSub(a, b) = SAdd(a, SNeg(b))
    \* infinities
    /\ (a = PInf /\ b = NInf) => IsNaN(SAdd(a, b))
    /\ (IsInf(a) /\ IsZ(b)) => IsNaN(SMul(a, b))
    /\ (IsInf(a) /\ IsInf(b)) => IsNaN(SDiv(a, b))
    /\ (IsZ(b) /\ ~IsZ(a) /\ ~IsNaN(a)) => IsInf(SDiv(a, b))
    \* remainder: sign of the divisor, smaller than it; fmod: sign of the dividend
    /\ (IsFinite(a) /\ IsFinite(b) /\ ~IsZ(b)) =>
         LET r == B2("remainder") m == B2("fmod") IN
         /\ (IsZ(r) \/ NegSign(r) = NegSign(b)) /\ FCmp(FAbs(Z(r)), FAbs(b)) < 0
         /\ (IsZ(m) \/ NegSign(m) = NegSign(a)) /\ FCmp(FAbs(Z(m)), FAbs(b)) < 0
         /\ Z(FAdd(FMul(Z(B2("floor_divide")), b), Z(r))) = Z(a)
    \* fmax and fmin ignore a NaN, maximum and minimum do not
    /\ x[2] = 2 => /\ IsNaN(B2("fmax")) = (IsNaN(a) /\ IsNaN(b))
                   /\ (~IsNaN(a) /\ ~IsNaN(b)) => {B2("maximum"), B2("minimum")} = {a, b} /\ B2("fmax") = B2("maximum") /\ B2("fmin") = B2("minimum")
FloatProg ==
  LET n == Len(FlV) z == IF x[2] = 1 THEN 1 ELSE 0 IN
  <<DAr(<<n>>, FlD, [k \in 1..n |-> FlA]), DAr(<<n>>, FlD, FlV)>>
  \o CatQ(MapQ(FlF, LAMBDA f : <<DEv("bin", <<1, 2>>, [f |-> f, m |-> 0, sz |-> z])>>), 1)
  \o MapQ(FlC, LAMBDA f : DEv("bin", <<1, 2>>, [f |-> f, m |-> 1, sz |-> z]))
  \o Opt(x[3] = 1 /\ z = 1, MapQ(<<"negative", "absolute", "sign", "floor", "ceil", "trunc", "isnan", "isinf", "isfinite", "signbit", "square">>,
                                LAMBDA f : DEv("un", <<2>>, [f |-> f, m |-> 0, sz |-> 1])))

(* ------------------------------ contractions ---------------------------- *)
\* products of 2 x 2 matrices over {-1, 0, 2}: the instance is one matrix
CmA == Arr(<<2, 2>>, "int64", [k \in 1..4 |-> I(<<-1, 0, 2>>[x[k]])])
CmB == Arr(<<2, 2>>, "int64", <<I(1), I(2), I(0), I(-1)>>)
CmC == Arr(<<2, 2>>, "int64", <<I(0), I(1), I(3), I(5)>>)
Mm(p, q) == ContractApply(<<p, q>>, [f |-> "matmul", m |-> 0]).res[1].a
CmT(p) == Arr(<<p.s[2], p.s[1]>>, p.d, [k \in 1..Len(p.v) |-> p.v[1 + (((k - 1) % p.s[1]) * p.s[2]) + ((k - 1) \div p.s[1])]])
CmId == Arr(<<2, 2>>, "int64", <<I(1), I(0), I(0), I(1)>>)
CmAdd(p, q) == [p EXCEPT !.v = [k \in 1..Len(p.v) |-> Add("int64", p.v[k], q.v[k])]]
ContractLaws ==
  /\ Mm(Mm(CmA, CmB), CmC) = Mm(CmA, Mm(CmB, CmC))
  /\ Mm(CmA, CmId) = CmA /\ Mm(CmId, CmA) = CmA
  /\ CmT(Mm(CmA, CmB)) = Mm(CmT(CmB), CmT(CmA))
  /\ Mm(CmA, CmAdd(CmB, CmC)) = CmAdd(Mm(CmA, CmB), Mm(CmA, CmC))
ContractProg ==
  <<DAr(<<2, 2>>, "int64", CmA.v), DAr(<<2, 2>>, "int64", CmB.v), DAr(<<2, 2>>, "int64", CmC.v),
    DEv("contract", <<1, 2>>, [f |-> "matmul", m |-> 0]), DEv("contract", <<4, 3>>, [f |-> "matmul", m |-> 0]),
    DEv("contract", <<2, 3>>, [f |-> "matmul", m |-> 0]), DEv("contract", <<1, 6>>, [f |-> "matmul", m |-> 0]),
    DEv("contract", <<1, 2>>, [f |-> "dot", m |-> 0]), DEv("contract", <<1, 2>>, [f |-> "kron"]), DEv("contract", <<1, 2>>, [f |-> "inner"]), DEv("contract", <<1, 2>>, [f |-> "outer"])>>

(* --------------------------------- casts -------------------------------- *)
\* every value near the ends of every integer width, cast to every type
CsD == Dn(x[1])
CsE == Dn(x[2])
CsV == LET w == IF Kind(CsD) \in {"i", "u"} THEN Width(CsD) ELSE 8
           big == <<I(0), I(1), I(2), I(100), I(127)>> neg == <<I(-1), I(-128), I(-100)>>
           more == IF w >= 16 THEN <<I(128), I(255), I(256), I(32767)>> ELSE IF CsD = "uint8" THEN <<I(128), I(255)>> ELSE <<>>
           wide == IF w >= 32 THEN <<I(32768), I(65535), I(65536), I(1000000), I(1000001)>> ELSE <<>>
       IN CASE CsD = "bool" -> <<Zero, One>>
            [] Kind(CsD) = "u" -> big \o more \o wide
            [] Kind(CsD) = "i" -> big \o neg \o more \o wide
            [] Kind(CsD) = "f" -> <<I(0), I(1), I(100), <<1, 2>>, <<7, 2>>>>
            [] Kind(CsD) = "c" -> <<Cx(I(0), Zero), Cx(I(1), Zero), Cx(<<5, 2>>, Zero)>>
CastLaws ==
  \A k \in 1..Len(CsV) : LET v == CsV[k] IN
    \* casts to the same type, and there and back along safe casts, lose nothing
    /\ Cast(v, CsD, CsD) = v
    /\ (CanCast(CsD, CsE, "safe") /\ ~(Kind(CsD) \in {"i", "u"} /\ Width(CsD) = 64 /\ Kind(CsE) # Kind(CsD))) => Cast(Cast(v, CsD, CsE), CsE, CsD) = v
    \* integers are reduced modulo the width: casting in two steps through a wider type changes nothing
    /\ (Kind(CsD) \in {"i", "u"} /\ Kind(CsE) \in {"i", "u"}) => Cast(Cast(v, CsD, "int64"), "int64", CsE) = Cast(v, CsD, CsE)
    \* truth is preserved
    /\ (Kind(CsE) \in {"f", "c"} \/ CsE = "bool") => Truthy(Cast(v, CsD, CsE)) = Truthy(v)
CastProg == <<DAr(<<Len(CsV)>>, CsD, CsV), DEv("astype", <<1>>, [d |-> CsE, fn |-> 0]), DEv("astype", <<1>>, [d |-> CsE, fn |-> 1])>>

(* --------------------------------- dates -------------------------------- *)
\* group 1: every day of a month; 2: times of a day in every unit; 3: every week mask; 4: durations in two units
DyN == Len(x)
DyDays == LET a == DayNumber(x[2], x[3], 1) IN [i \in 1..MonthLen(x[2], x[3]) |-> a + i - 1]
DyTimes == LET per == PerUnit(uD, x[2]) b == IntMul(I(x[3]), per) IN
  IF x[2] = uD THEN <<b>> ELSE <<b, IntAdd(b, One), IntAdd(b, IntSub(per, One)), IntAdd(b, IntDivMod(per, I(2))[1]), IntAdd(b, IntDivMod(per, I(7))[1])>>
DyMask == [i \in 1..7 |-> (x[2] \div Pow2(7 - i)) % 2]
DyHol == {11017, 11021, 11022}           \* 2000-03-01, 05, 06
DyHolText == <<DateText(11017), DateText(11021), DateText(11022)>>
DyDelta == <<I(-13), I(-12), I(-5), I(-1), I(0), I(1), I(4), I(5), I(11), I(12), I(25), I(400)>>
DayLaws ==
  CASE x[1] = 1 ->
         \A i \in 1..Len(DyDays) : LET n == DyDays[i] IN
         /\ Civil(n) = <<x[2], x[3], i>>
         \* the next day is the next date
         /\ Civil(n + 1) = IF i < Len(DyDays) THEN <<x[2], x[3], i + 1>> ELSE IF x[3] < 12 THEN <<x[2], x[3] + 1, 1>> ELSE <<x[2] + 1, 1, 1>>
         /\ Weekday(n + 7) = Weekday(n) /\ Weekday(n + 1) = (Weekday(n) + 1) % 7
         \* the calendar repeats after 400 years, which are 20871 weeks
         /\ DayNumber(x[2] + 400, x[3], i) = n + 146097
         /\ (x[2] >= 0 => ParseDT(DateText(n), uD) = <<I(n)>>)
         \* truncation to months and years and back gives the first day
         /\ ConvDate(ConvDate(I(n), uD, uM), uM, uD) = I(DyDays[1])
         /\ ConvDate(ConvDate(I(n), uD, uY), uY, uD) = I(DayNumber(x[2], 1, 1))
         /\ ConvDate(ConvDate(I(n), uD, uM), uM, uY) = ConvDate(I(n), uD, uY)
         /\ LET w == ConvDate(ConvDate(I(n), uD, uW), uW, uD)[1] IN w <= n /\ n < w + 7 /\ Weekday(w) = 3
    [] x[1] = 2 ->
         \A i \in 1..Len(DyTimes) : LET v == DyTimes[i] u == x[2] IN
         /\ ParseDT(DtText(v, u), u) = <<v>>
         /\ \A w \in u..10 : LET f == ConvDate(v, u, w) IN f # NaT => ConvDate(f, w, u) = v
         /\ \A w \in 1..u : /\ ConvDate(v, u, w) = ConvDate(ConvDate(v, u, uD), uD, w) \/ w > uD
                            /\ IntCmp(ConvDate(ConvDate(v, u, w), w, u), v) <= 0
                            /\ IntCmp(v, ConvDate(IntAdd(ConvDate(v, u, w), One), w, u)) < 0
    [] x[1] = 3 ->
         \A n \in 11010..11024 : \A k \in -4..4 :
         LET wm == DyMask m == BizStep(n, k, wm, DyHol) IN
         /\ k # 0 => BizDay(m, wm, DyHol)
         \* stepping back comes back to a business day
         /\ BizDay(n, wm, DyHol) => BizStep(m, -k, wm, DyHol) = n /\ BizCount(n, m, wm, DyHol) = k
         /\ BizCount(n, n + k, wm, DyHol) + BizCount(n + k, n + 9, wm, DyHol) = BizCount(n, n + 9, wm, DyHol) \/ k < 0
    [] x[1] = 4 ->
         \A i \in 1..Len(DyDelta) : LET v == DyDelta[i] IN
         /\ (x[2] <= x[3] /\ CalU(x[2]) = CalU(x[3])) => ConvDelta(ConvDelta(v, x[2], x[3]), x[3], x[2]) = v
         /\ LET a == ConvDelta(DyDelta[MaxI(i - 1, 1)], x[2], x[3]) b == ConvDelta(v, x[2], x[3]) IN a = NaT \/ b = NaT \/ IntCmp(a, b) <= 0
         /\ ConvDelta(v, x[2], x[3]) # NaT /\ x[2] <= x[3] => Sgn(ConvDelta(v, x[2], x[3])) = Sgn(v)
DayProg ==
  CASE x[1] = 1 ->
         LET n == Len(DyDays) c(w) == DEv("dtcast", <<1>>, [u |-> w]) IN
         <<DAr(<<n>>, UnitM[4], MapQ(DyDays, I)), c(1), c(2), c(3), c(7)>>
         \o <<DEv("dtcast", <<3>>, [u |-> 4]), DEv("dtcast", <<4>>, [u |-> 4])>>
         \o Opt(x[2] >= 0, <<DEv("dtstr", <<1>>, [u |-> 0]), DEv("dtparse", <<>>, [q |-> MapQ(DyDays, DateText), u |-> 4]), DEv("dtparse", <<>>, [q |-> MapQ(DyDays, DateText), u |-> 2])>>)
         \o <<DEv("biz", <<1>>, [f |-> "is", form |-> "arr", mask |-> <<49, 49, 49, 49, 49, 48, 48>>, hol |-> <<>>, nocal |-> 1])>>
    [] x[1] = 2 ->
         <<DAr(<<Len(DyTimes)>>, UnitM[x[2]], DyTimes)>>
         \o [w \in 1..(IF x[2] = 10 THEN 10 ELSE 9) |-> DEv("dtcast", <<1>>, [u |-> w])]
         \o <<DEv("dtstr", <<1>>, [u |-> 0])>>
         \o <<DEv("dtparse", <<>>, [q |-> MapQ(DyTimes, LAMBDA v : DtText(v, x[2])), u |-> x[2]])>>
    [] x[1] = 3 ->
         LET b(f, a) == DEv("biz", a, [f |-> f, form |-> "arr", mask |-> [i \in 1..7 |-> 48 + DyMask[i]], hol |-> DyHolText, nocal |-> 0]) IN
         <<DAr(<<15>>, UnitM[4], [i \in 1..15 |-> I(11009 + i)]), DAr(<<9, 1>>, "int64", [k \in 1..9 |-> I(k - 5)]), DAr(<<5, 1>>, UnitM[4], [k \in 1..5 |-> I(11008 + 3 * k)]),
           b("is", <<1>>), b("offset", <<1, 2>>), b("count", <<3, 1>>), b("holidays", <<>>), b("mask", <<>>)>>
    [] x[1] = 4 ->
         <<DAr(<<Len(DyDelta)>>, UnitT[x[2]], DyDelta), DAr(<<1>>, UnitT[x[3]], <<I(3)>>),
           DEv("dtcast", <<1>>, [u |-> x[3]])>>
         \o MapQ(<<"add", "subtract", "maximum", "minimum">>, LAMBDA f : DEv("dtbin", <<1, 2>>, [f |-> f, sy |-> 0]))
         \o MapQ(<<"less", "equal", "greater_equal">>, LAMBDA f : DEv("dtcmp", <<1, 2>>, [f |-> f, sy |-> 0]))

(* ------------------------------- gathering ------------------------------ *)
\* group 1: every mask of a 2 x 3 array; group 2: every pair of indices into an axis of three
GaA == Arr(<<2, 3>>, "int64", [k \in 1..6 |-> I(10 * k)])
GaB == Arr(<<2, 3>>, "int64", [k \in 1..6 |-> I(-k)])
GaM == Arr(<<2, 3>>, "bool", [k \in 1..6 |-> I(x[k + 1])])
GaX == Arr(<<2>>, "int64", <<I(x[2]), I(x[3])>>)
GaX2 == Arr(<<2, 2>>, "int64", <<I(x[2]), I(x[3]), I(x[3]), I(x[2])>>)
Ga(A, p) == GatherApply(A, p)
GthLaws ==
  CASE x[1] = 1 ->
         LET pos == TruePos(GaM) m == Len(pos)
             flat == Arr(<<m>>, "int64", [i \in 1..m |-> I(pos[i] - 1)])
             sel == Ga(<<GaA, GaM>>, [f |-> "mask"])
             inv == Arr(<<2, 3>>, "bool", [k \in 1..6 |-> I(1 - x[k + 1])]) IN
         \* a mask selects what its true positions address, in order
         /\ sel = Ga(<<Ravel(GaA), flat>>, [f |-> "take", none |-> 0, axis |-> 0])
         /\ sel = Ga(<<GaM, GaA>>, [f |-> "extract"])
         /\ sel = Ga(<<Ravel(GaM), GaA>>, [f |-> "compress", none |-> 1, axis |-> 0])
         \* a mask and its complement share out the elements
         /\ Range(sel.v) \cup Range(Ga(<<GaA, inv>>, [f |-> "mask"]).v) = Range(GaA.v) /\ Len(sel.v) = m
         \* three ways of choosing between two arrays
         /\ LET c == Ga(<<Arr(<<2, 3>>, "int64", GaM.v), GaB, GaA>>, [f |-> "choose"]) IN
            /\ c = Ga(<<GaM, inv, GaA, GaB>>, [f |-> "select", m |-> 2, v |-> Zero])
            /\ \A k \in 1..6 : c.v[k] = IF x[k + 1] = 1 THEN GaA.v[k] ELSE GaB.v[k]
         /\ \A ax \in 0..1 :
              LET q == SubSeq(GaM.v, 1, GaA.s[ax + 1]) C == Arr(<<Len(q)>>, "bool", q) t == TruePos(C) IN
              Ga(<<C, GaA>>, [f |-> "compress", none |-> 0, axis |-> ax]) =
              Ga(<<GaA, Arr(<<Len(t)>>, "int64", [i \in 1..Len(t) |-> I(t[i] - 1)])>>, [f |-> "take", none |-> 0, axis |-> ax])
    [] x[1] = 2 ->
         LET t == Ga(<<GaA, GaX>>, [f |-> "take", none |-> 0, axis |-> 1])
             ok == x[2] \in -3..2 /\ x[3] \in -3..2
             up(i) == IF i < 0 THEN i + 3 ELSE i IN
         /\ (t = BadA) <=> ~ok
         /\ ok => /\ t = Concat(<<AxisMap(GaA, 1, 1, LAMBDA i : up(x[2])), AxisMap(GaA, 1, 1, LAMBDA i : up(x[3]))>>, 1)
                  \* the same indices for every row
                  /\ t = Ga(<<GaA, Arr(<<2, 2>>, "int64", GaX.v \o GaX.v)>>, [f |-> "take_along_axis", axis |-> 1])
                  \* an index array of two axes inserts both
                  /\ Ga(<<GaA, GaX2>>, [f |-> "take", none |-> 0, axis |-> 1]).s = <<2, 2, 2>>
                  /\ \A k \in 1..2 : Ga(<<GaA, Arr(<<>>, "int64", <<GaX.v[k]>>)>>, [f |-> "take", none |-> 0, axis |-> 1]).v = <<t.v[k], t.v[k + 2]>>
GthProg ==
  LET G(a, p) == DEv("gather", a, p) IN
  CASE x[1] = 1 ->
         <<DAr(GaA.s, "int64", GaA.v), DAr(GaB.s, "int64", GaB.v), DAr(GaM.s, "bool", GaM.v), DAr(GaM.s, "int64", GaM.v),
           DAr(<<6>>, "bool", GaM.v), DAr(<<2>>, "bool", SubSeq(GaM.v, 1, 2)), DAr(<<3>>, "bool", SubSeq(GaM.v, 1, 3)), DAr(<<2, 1>>, "bool", SubSeq(GaM.v, 3, 4)),
           G(<<1, 3>>, [f |-> "mask"]), G(<<3, 1>>, [f |-> "extract"]), G(<<4, 1>>, [f |-> "extract"]),
           G(<<5, 1>>, [f |-> "compress", none |-> 1, axis |-> 0, m |-> 0]), G(<<6, 1>>, [f |-> "compress", none |-> 0, axis |-> 0, m |-> 1]), G(<<7, 1>>, [f |-> "compress", none |-> 0, axis |-> 1, m |-> 0]),
           G(<<4, 2, 1>>, [f |-> "choose"]), G(<<3, 8, 1, 2>>, [f |-> "select", m |-> 2, v |-> I(7)]), G(<<8, 3, 1, 2>>, [f |-> "select", m |-> 2, v |-> Zero]),
           DEv("where3", <<3, 1, 2>>, N0), DEv("where3", <<8, 1, 2>>, N0), DEv("where3", <<7, 1, 2>>, N0)>>
         \o MapQ(<<"nonzero", "flatnonzero", "argwhere">>, LAMBDA f : DEv("nonzero", <<3>>, [f |-> f, m |-> 0]))
    [] x[1] = 2 ->
         <<DAr(GaA.s, "int64", GaA.v), DAr(<<3>>, "float64", <<I(1), I(2), I(3)>>), DAr(<<2>>, "int64", GaX.v), DAr(<<2, 2>>, "int64", GaX2.v), DAr(<<2, 1>>, "int64", GaX.v),
           G(<<1, 3>>, [f |-> "take", none |-> 0, axis |-> 1, m |-> 0]), G(<<1, 3>>, [f |-> "take", none |-> 1, axis |-> 0, m |-> 0]), G(<<1, 3>>, [f |-> "take", none |-> 0, axis |-> 0, m |-> 0]),
           G(<<1, 4>>, [f |-> "take", none |-> 0, axis |-> 1, m |-> 0]), G(<<2, 4>>, [f |-> "fancy", none |-> 0, axis |-> 0, m |-> 0]), G(<<2, 3>>, [f |-> "fancy", none |-> 0, axis |-> 0, m |-> 0]),
           G(<<1, 4>>, [f |-> "take_along_axis", axis |-> 1, none |-> 0]), G(<<1, 5>>, [f |-> "take_along_axis", axis |-> 1, none |-> 0])>>

(* ---------------------------- grids and indices ------------------------- *)
\* group 1: index arithmetic of every small shape; 2: ranges; 3: triangles; 4: bytes
GdS == Tail(x)
GdN == Size(GdS)
GdAll == Arr(<<GdN>>, "int64", [k \in 1..GdN |-> I(k - 1)])
Gg(A, p) == GridApply([p |-> p], A)
GdUn(o) == Gg(<<GdAll>>, [f |-> "unravel_index", s |-> GdS, o |-> o, sc |-> 0, i |-> 0])
GdArange(a, b, c) == Gg(<<>>, [f |-> "arange", start |-> I(a), stop |-> I(b), step |-> I(c), fl |-> 0, na |-> 3, to |-> ""])
GdTri(f, n, m, k) == Gg(<<>>, [f |-> f, n |-> n, m |-> m, k |-> k])
GdByte == Arr(<<2>>, "uint8", <<I(x[2]), I(255 - x[2])>>)
GdLaws ==
  CASE x[1] = 1 ->
         \A o \in {"C", "F"} :
           LET u == TLCEval(GdUn(o)) c == [j \in 1..Len(GdS) |-> u.res[j].a] IN
           \* ravelling undoes unravelling
           /\ Gg(c, [f |-> "ravel_multi_index", s |-> GdS, o |-> o, mode |-> "raise"]).res[1].a = GdAll
           \* distinct positions have distinct indices, all within the shape
           /\ Cardinality({[j \in 1..Len(c) |-> c[j].v[k]] : k \in 1..GdN}) = GdN
           /\ \A j \in 1..Len(c) : \A k \in 1..GdN : c[j].v[k][1] \in 0..(GdS[j] - 1)
           \* in C order they are the rows of ndindex, and of indices
           /\ o = "C" => /\ Gg(<<>>, [f |-> "ndindex", s |-> GdS]).res[1].a.v = Flatten([k \in 1..GdN |-> [j \in 1..Len(c) |-> c[j].v[k]]])
                         /\ Gg(<<>>, [f |-> "indices", s |-> GdS, d |-> "int64"]).res[1].a.v = Flatten([j \in 1..Len(c) |-> c[j].v])
           \* wrapping by whole periods changes nothing
           /\ Gg([j \in 1..Len(c) |-> Arr(<<GdN>>, "int64", [k \in 1..GdN |-> I(c[j].v[k][1] + 2 * GdS[j])])], [f |-> "ravel_multi_index", s |-> GdS, o |-> o, mode |-> "wrap"]).res[1].a = GdAll
    [] x[1] = 2 ->
         LET r == GdArange(x[2], x[3], x[4]) IN
         IF x[4] = 0 THEN r.err # ""
         ELSE LET v == r.res[1].a.v n == Len(v) IN
              \* exactly the numbers start + i * step on the way to stop
              /\ {v[i][1] : i \in 1..n} = {q \in -9..9 : (q - x[2]) % AbsI(x[4]) = 0 /\ (IF x[4] > 0 THEN q >= x[2] /\ q < x[3] ELSE q <= x[2] /\ q > x[3])}
              /\ \A i \in 2..n : v[i][1] - v[i - 1][1] = x[4]
              \* the reversed range
              /\ n > 0 => LET w == GdArange(v[n][1], x[2] - Sgn(I(x[4])), -x[4]).res[1].a.v IN w = [i \in 1..n |-> v[n + 1 - i]]
    [] x[1] = 3 ->
         LET n == x[2] m == x[3] k == x[4]
             lo == GdTri("tril_indices", n, m, k).res up == GdTri("triu_indices", n, m, k + 1).res
             cell(r) == {<<r[1].a.v[i], r[2].a.v[i]>> : i \in 1..Len(r[1].a.v)}
             t == Gg(<<>>, [f |-> "tri", n |-> n, m |-> m, k |-> k, d |-> "int64"]).res[1].a IN
         \* the two triangles share out the cells; tri is one exactly on the lower
         /\ cell(lo) \cap cell(up) = {} /\ cell(lo) \cup cell(up) = {<<I(i - 1), I(j - 1)>> : i \in 1..n, j \in 1..m}
         /\ SumI([i \in 1..Len(t.v) |-> t.v[i][1]]) = Cardinality(cell(lo))
         /\ (n > 0 /\ m > 0) => t = TriA(Arr(<<n, m>>, "int64", [i \in 1..(n * m) |-> One]), k, 1)
    [] x[1] = 4 ->
         \A o \in {"big", "little"} :
           LET u == Gg(<<GdByte>>, [f |-> "unpackbits", ha |-> 0, axis |-> 0, o |-> o, hc |-> 0, count |-> 0]).res[1].a IN
           /\ Gg(<<u>>, [f |-> "packbits", ha |-> 0, axis |-> 0, o |-> o]).res[1].a = GdByte
           /\ Len(u.v) = 16 /\ \A i \in 1..8 : u.v[i][1] + u.v[i + 8][1] = 1
GdProg ==
  LET P(a, p) == DEv("grid", a, p) IN
  CASE x[1] = 1 ->
         LET n == Len(GdS) h(o) == GdUn(o) IN
         <<DAr(<<GdN>>, "int64", GdAll.v), P(<<1>>, [f |-> "unravel_index", s |-> GdS, o |-> "C", sc |-> 0, i |-> 0]), P(<<1>>, [f |-> "unravel_index", s |-> GdS, o |-> "F", sc |-> 0, i |-> 0]),
           P([j \in 1..n |-> 1 + j], [f |-> "ravel_multi_index", s |-> GdS, o |-> "C", mode |-> "raise"]),
           P([j \in 1..n |-> 1 + n + j], [f |-> "ravel_multi_index", s |-> GdS, o |-> "F", mode |-> "raise"]),
           P([j \in 1..n |-> 1], [f |-> "ravel_multi_index", s |-> GdS, o |-> "C", mode |-> "clip"]),
           P([j \in 1..n |-> 1], [f |-> "ravel_multi_index", s |-> GdS, o |-> "F", mode |-> "wrap"]),
           P(<<>>, [f |-> "ndindex", s |-> GdS, fn |-> 0]), P(<<>>, [f |-> "indices", s |-> GdS, d |-> "int64"]),
           P(<<>>, [f |-> "unravel_index", s |-> GdS, o |-> "C", sc |-> 1, i |-> GdN - 1]), P(<<>>, [f |-> "unravel_index", s |-> GdS, o |-> "F", sc |-> 1, i |-> GdN \div 2]),
           P(<<>>, [f |-> "unravel_index", s |-> GdS, o |-> "C", sc |-> 1, i |-> GdN])>>
    [] x[1] = 2 ->
         <<P(<<>>, [f |-> "arange", start |-> I(x[2]), stop |-> I(x[3]), step |-> I(x[4]), fl |-> 0, na |-> 3, to |-> ""]),
           P(<<>>, [f |-> "arange", start |-> FDiv(I(x[2]), I(2)), stop |-> FDiv(I(x[3]), I(4)), step |-> FDiv(I(x[4]), I(8)), fl |-> 1, na |-> 3, to |-> ""])>>
         \o Opt(x[4] > 0, <<P(<<>>, [f |-> "mgrid", k |-> <<<<x[2], x[3], x[4]>>, <<0, 2, 1>>>>]), P(<<>>, [f |-> "ogrid", k |-> <<<<0, 3, 2>>, <<x[2], x[3], x[4]>>>>])>>)
    [] x[1] = 3 ->
         MapQ(<<"tril_indices", "triu_indices">>, LAMBDA f : P(<<>>, [f |-> f, n |-> x[2], m |-> x[3], k |-> x[4], mask |-> 0]))
         \o <<P(<<>>, [f |-> "tri", n |-> x[2], m |-> x[3], k |-> x[4], d |-> "int32"])>>
    [] x[1] = 4 ->
         <<DAr(<<2>>, "uint8", GdByte.v), DAr(<<1, 2>>, "uint8", GdByte.v)>>
         \o CatQ(MapQ(<<"big", "little">>, LAMBDA o :
              <<P(<<1>>, [f |-> "unpackbits", ha |-> 0, axis |-> 0, o |-> o, hc |-> 0, count |-> 0]), P(<<2>>, [f |-> "unpackbits", ha |-> 1, axis |-> 1, o |-> o, hc |-> 1, count |-> 11]),
                P(<<2>>, [f |-> "unpackbits", ha |-> 1, axis |-> 0, o |-> o, hc |-> 1, count |-> -3])>>), 1)
         \o CatQ(MapQ(<<"big", "little">>, LAMBDA o : <<P(<<3>>, [f |-> "packbits", ha |-> 0, axis |-> 0, o |-> o]), P(<<4>>, [f |-> "packbits", ha |-> 1, axis |-> 1, o |-> o])>>), 1)

(* ------------------------------ NaN reductions -------------------------- *)
NnS == <<x[1], x[2]>>
NnA == Arr(NnS, "float64", Vals4(SubSeq(x, 3, Len(x))))
NnF == <<"sum", "prod", "max", "min", "mean", "var", "std", "median">>
NnLaws ==
  LET A == NnA ok == NoNaN(A.v) B1 == Arr(<<Len(ok)>>, "float64", ok)
      full(f, C) == RedApply(C, [f |-> f] @@ RdP(1, <<>>, 0)) IN
  \* reducing with the NaN-aware function is reducing what remains without the NaN
  /\ ok # <<>> => \A i \in 1..Len(NnF) : full("nan" \o NnF[i], A) = full(NnF[i], B1)
  /\ \A i \in 1..2 : full("nan" \o NnF[i], A) = full(NnF[i], B1)
  \* the same holds lane by lane
  /\ \A ax \in 0..1 : \A i \in 1..Len(NnF) :
       LET r == RedApply(A, [f |-> "nan" \o NnF[i]] @@ RdP(0, <<ax>>, 0)) IN
       r.err = "" => \A k \in 1..Len(r.res[1].a.v) :
         LET lane == IF ax = 0 THEN [j \in 1..NnS[1] |-> A.v[(j - 1) * NnS[2] + k]] ELSE SubSeq(A.v, (k - 1) * NnS[2] + 1, k * NnS[2])
             L == Arr(<<Len(lane)>>, "float64", lane) f == full("nan" \o NnF[i], L) IN
         f.err = "" => r.res[1].a.v[k] = f.res[1].v
  \* the position reported holds the extremum and is the first such
  /\ ok # <<>> => \A f \in {<<"nanargmax", "nanmax">>, <<"nanargmin", "nanmin">>} :
       LET k == full(f[1], A).res[1].v[1] m == full(f[2], A).res[1].v IN
       A.v[k + 1] = m /\ \A j \in 1..k : A.v[j] # m
  /\ ok = <<>> => full("nanargmax", A).err # ""
  \* moving every value moves the mean and not the variance
  /\ ok # <<>> => LET C == [A EXCEPT !.v = [k \in 1..Len(A.v) |-> SAdd(A.v[k], I(3))]] IN
       /\ full("nanmean", C).res[1].v = FAdd(full("nanmean", A).res[1].v, I(3))
       /\ full("nanvar", C) = full("nanvar", A) /\ full("nanvar", A).res[1].v[1] >= 0
  \* prefix sums skip NaN: the last is the total
  /\ LET c == CumApply(A, [f |-> "nancumsum", none |-> 1, axis |-> 0, init |-> 0, m |-> 0]).res[1].a.v IN c[Len(c)] = full("nansum", A).res[1].v
NnProg ==
  <<DAr(NnS, "float64", NnA.v)>>
  \o CatQ(MapQ(NnF \o <<"argmax", "argmin">>, LAMBDA f :
       <<DEv("red", <<1>>, [f |-> "nan" \o f] @@ RdP(1, <<>>, 0)), DEv("red", <<1>>, [f |-> "nan" \o f] @@ RdP(0, <<1>>, 0)),
         DEv("red", <<1>>, [f |-> "nan" \o f] @@ RdP(0, <<0>>, 0))>>), 1)
  \o CatQ(MapQ(<<"nancumsum", "nancumprod">>, LAMBDA f : <<DEv("cum", <<1>>, [f |-> f, none |-> 1, axis |-> 0, init |-> 0, m |-> 0]), DEv("cum", <<1>>, [f |-> f, none |-> 0, axis |-> 0, init |-> 0, m |-> 0])>>), 1)

(* ------------------------ prefix sums and differences ------------------- *)
\* 1: 8-bit integers including the ends; 2: floats
DfD == <<"int8", "float64">>[x[1]]
DfQ == [i \in 1..(Len(x) - 1) |-> IF x[1] = 1 THEN <<I(-128), I(127), I(0), I(3)>>[x[i + 1]] ELSE <<I(-2), I(0), I(1), I(5)>>[x[i + 1]]]
DfA == Arr(<<Len(DfQ)>>, DfD, DfQ)
DfP(f, i) == [f |-> f, none |-> 0, axis |-> 0, init |-> i, m |-> 0]
DfLaws ==
  LET q == DfQ n == Len(q) d == DfD c == CumLane("cumsum", d, q) IN
  \* sums and differences undo each other
  /\ n > 0 => DiffN(d, c, 1) = Tail(q)
  /\ n > 0 => CumLane("cumsum", d, <<q[1]>> \o DiffN(d, q, 1)) = q
  /\ DiffN(d, CumApply(DfA, DfP("cumulative_sum", 1)).res[1].a.v, 1) = q
  \* differences of differences
  /\ \A i \in 0..3, j \in 0..2 : DiffN(d, DiffN(d, q, i), j) = DiffN(d, q, i + j)
  /\ Len(DiffN(d, q, 2)) = MaxI(0, n - 2)
  \* a prefix of the sums is the sums of a prefix
  /\ \A k \in 0..n : SubSeq(c, 1, k) = CumLane("cumsum", d, SubSeq(q, 1, k))
  /\ n > 0 => c[n] = SumD(d, q) /\ CumLane("cumprod", d, q)[n] = ProdD(d, q)
  /\ EDiff(DfA, [b |-> <<Zero>>, e |-> <<I(7)>>]).res[1].a.v = <<Zero>> \o DiffN(d, q, 1) \o <<I(7)>>
  \* integration is additive over adjacent intervals, slopes of straight lines are constant
  /\ d = "float64" =>
       LET tr(w) == TrapApply(Arr(<<Len(w)>>, d, w), [dx |-> One, axis |-> 0]).res[1].a.v[1] IN
       /\ \A k \in 1..n : FAdd(tr(SubSeq(q, 1, k)), tr(SubSeq(q, k, n))) = tr(q)
       /\ n >= 2 => GradLane([i \in 1..n |-> FAdd(q[1], FMul(I(i), q[2]))], I(2)) = [i \in 1..n |-> FDiv(q[2], I(2))]
       \* the trapezoid rule integrates the central slopes back to the end-point difference, up to the ends
       /\ n >= 2 => LET g == GradLane(q, One) IN n = 2 => FSum(g) = FMul(I(2), FSub(q[2], q[1]))
DfProg ==
  LET n == Len(DfQ) C(f, i) == DEv("cum", <<1>>, DfP(f, i)) IN
  <<DAr(<<n>>, DfD, DfQ), C("cumsum", 0), C("cumprod", 0), C("cumulative_sum", 0), C("cumulative_sum", 1), C("cumulative_prod", 1),
    DEv("cum", <<1>>, [f |-> "cumsum", none |-> 1, axis |-> 0, init |-> 0, m |-> 1])>>
  \o [k \in 1..4 |-> DEv("diff", <<1>>, [ord |-> k - 1, axis |-> 0])]
  \o Opt(x[1] = 2, <<DEv("ediff1d", <<1>>, [b |-> <<Zero>>, e |-> <<I(7)>>]), DEv("ediff1d", <<1>>, [b |-> <<>>, e |-> <<>>])>>)
  \o Opt(x[1] = 2 /\ n >= 1, <<DEv("trapezoid", <<1>>, [dx |-> I(2), axis |-> 0])>>)
  \o Opt(x[1] = 2 /\ n >= 2, <<DEv("gradient", <<1>>, [h |-> I(2)])>>)

(* ------------------------------- statistics ----------------------------- *)
\* 1: one sample with possible NaN; 2: two short sequences
QsV == Vals4(Tail(x))
QsX == [i \in 1..x[2] |-> <<I(-1), I(0), I(2)>>[x[i + 2]]]
QsY == [i \in 1..(Len(x) - 2 - x[2]) |-> <<I(-1), I(1), I(3)>>[x[i + 2 + x[2]]]]
QsP == <<Zero, <<1, 4>>, <<1, 2>>, <<2, 3>>, One>>
QsH(q, b, r) == Histogram(Arr(<<Len(q)>>, "float64", q), [b |-> b, r |-> r, edges |-> 0])
Tot(q) == FSum(q)
QsConv(p, q) == FullConv(p, q)
QsLaws ==
  CASE x[1] = 1 ->
         LET q == QsV ok == NoNaN(q) IN
         /\ (q # <<>> /\ ~AnyNaN(q)) =>
              /\ Quant(q, Zero) = MinV(q) /\ Quant(q, One) = MaxV(q)
              /\ \A i \in 1..4 : Le(Quant(q, QsP[i]), Quant(q, QsP[i + 1]))
              \* reflection exchanges the tails
              /\ \A i \in 1..5 : Quant([k \in 1..Len(q) |-> FNeg(q[k])], FSub(One, QsP[i])) = FNeg(Quant(q, QsP[i]))
              \* at least half of the sample lies on either side of the median
              /\ LET m == Median(q) IN 2 * Cardinality({i \in 1..Len(q) : Le(q[i], m)}) >= Len(q) /\ 2 * Cardinality({i \in 1..Len(q) : Le(m, q[i])}) >= Len(q)
         \* every value in range is counted in exactly one bin
         /\ \A b \in 1..4 : LET h == QsH(q, b, <<I(-1), I(2)>>) IN
              /\ h.err = "" => Tot(h.res[1].a.v) = I(Len(ok))
              /\ h.err = "" => LET w == QsH(q, b, <<Zero, One>>) IN Tot(w.res[1].a.v) = I(Cardinality({i \in 1..Len(q) : q[i] = Zero}))
         /\ (q # <<>> /\ ~AnyNaN(q)) => LET h == QsH(q, 3, <<>>) e == h.res[2].a.v IN
              /\ Tot(h.res[1].a.v) = I(Len(q))
              /\ Le(e[1], MinV(q)) /\ Le(MaxV(q), e[4])
              /\ FSub(e[2], e[1]) = FSub(e[4], e[3])
    [] x[1] = 2 ->
         LET a == QsX b == QsY IN
         /\ (a # <<>> /\ b # <<>>) =>
              /\ QsConv(a, b) = QsConv(b, a)
              /\ QsConv(a, <<One>>) = a
              /\ QsConv(QsConv(a, b), <<I(2), I(-1)>>) = QsConv(a, QsConv(b, <<I(2), I(-1)>>))
              /\ Len(Convol(a, b, "same")) = MaxI(Len(a), Len(b)) /\ Len(Convol(a, b, "valid")) = AbsI(Len(a) - Len(b)) + 1
              /\ Correl(a, b, "full") = QsConv(a, Rev(b))
              \* values of a product are products of values; the total of a convolution is the product of the totals
              /\ \A t \in {I(-2), Zero, <<1, 2>>, I(3)} : PolyAt(QsConv(a, b), t) = FMul(PolyAt(a, t), PolyAt(b, t))
              /\ Tot(QsConv(a, b)) = FMul(Tot(a), Tot(b))
         \* differentiation undoes integration and is linear over products
         /\ a # <<>> => /\ PolyD(PolyI(a, <<I(5)>>), 1) = a /\ PolyD(PolyI(a, <<I(5), I(6)>>), 2) = a
                        /\ PolyAt(PolyI(a, <<I(5)>>), Zero) = I(5)
         \* interpolation goes through its nodes, clamps outside and is linear between
         /\ (Len(b) = Len(a) /\ a # <<>>) =>
              LET xp == [i \in 1..Len(a) |-> I(2 * i)] ip(t) == Interp1(t, xp, b, [l |-> <<>>, r |-> <<>>]) IN
              /\ \A i \in 1..Len(a) : ip(xp[i]) = b[i]
              /\ ip(Zero) = b[1] /\ ip(I(99)) = b[Len(b)] /\ IsNaN(ip(NaN))
              /\ \A i \in 1..(Len(a) - 1) : ip(I(2 * i + 1)) = FDiv(FAdd(b[i], b[i + 1]), I(2))
QsProg ==
  CASE x[1] = 1 ->
         LET n == Len(QsV) S(p) == DEv("stat", <<1>>, p) IN
         <<DAr(<<n>>, "float64", QsV),
           S([f |-> "quantile", fn |-> "quantile", nan |-> 0, q |-> QsP, sc |-> 0, none |-> 1, axis |-> 0]), S([f |-> "quantile", fn |-> "nanquantile", nan |-> 1, q |-> QsP, sc |-> 0, none |-> 1, axis |-> 0]),
           S([f |-> "quantile", fn |-> "percentile", nan |-> 0, q |-> <<<<1, 4>>, <<3, 4>>>>, sc |-> 0, none |-> 1, axis |-> 0])>>
         \o CatQ([b \in 1..4 |-> Opt(b # 3, <<S([f |-> "histogram", b |-> b, r |-> <<I(-1), I(3)>>, edges |-> 0, dflt |-> 0]), S([f |-> "histogram", b |-> b, r |-> <<Zero, One>>, edges |-> 0, dflt |-> 0])>>)], 1)
         \o Opt(~AnyNaN(QsV), <<S([f |-> "histogram", b |-> 2, r |-> <<>>, edges |-> 0, dflt |-> 0]), S([f |-> "histogram", b |-> 4, r |-> <<>>, edges |-> 0, dflt |-> 0])>>)
    [] x[1] = 2 ->
         LET n == Len(QsX) m == Len(QsY) S(a, p) == DEv("stat", a, p) IN
         <<DAr(<<n>>, "float64", QsX), DAr(<<m>>, "float64", QsY), DAr(<<4>>, "float64", <<I(-2), Zero, <<1, 2>>, I(3)>>), DAr(<<n>>, "float64", [i \in 1..n |-> I(2 * i)]), DAr(<<6>>, "float64", <<Zero, I(2), I(3), I(4), I(5), I(9)>>)>>
         \o CatQ(MapQ(<<"full", "same", "valid">>, LAMBDA md : <<S(<<1, 2>>, [f |-> "convolve", mode |-> md]), S(<<1, 2>>, [f |-> "correlate", mode |-> md])>>), 1)
         \o Opt(n > 0, <<S(<<1, 3>>, [f |-> "polyval"]), S(<<1>>, [f |-> "polyder", m |-> 1]), S(<<1>>, [f |-> "polyint", m |-> 1]), S(<<1>>, [f |-> "polyint", m |-> 2])>>)
         \o <<S(<<5, 4, 2>>, [f |-> "interp", l |-> <<>>, r |-> I(50)])>>

(* --------------------------- random generators -------------------------- *)
\* every schedule of draws from three generators, two of them made from the same seed.
\* The reference machine: an item is a function of the seed and of the calls the items before it came from.
RnAct == <<<<0, 1, 1>>, <<0, 1, 2>>, <<0, 2, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 2>>, <<2, 2, 1>>>>   \* generator, call, items
RnSeed(g) == IF g = 2 THEN 9 ELSE 4
RnNew(g) == DEv("rnew", <<>>, [g |-> g, kind |-> "seed", seed |-> <<RnSeed(g), 0, 0, 0, 0, 0, 0, 0>>, inc |-> <<>>])
RnDraw(k) == LET t == RnAct[k] IN
  DEv("rand", <<>>, [g |-> t[1], f |-> IF t[2] = 1 THEN "random" ELSE "integers", rep |-> 1, kwrep |-> 0,
                     x |-> IF t[2] = 1 THEN <<>> ELSE <<I(10)>>, w |-> <<>>, c |-> <<>>, hi |-> 0, none |-> 0, size |-> <<t[3]>>])
RnVal(s, h) == LET v == Fold(LAMBDA a, c : (a * 7 + c * 13 + 5) % 8191, s, h) IN IF h[Len(h)] = 1 THEN v ELSE v % 10
\* the calls of generator g among the first n actions, one entry per item
RnHist(g, n) == CatQ([i \in 1..n |-> LET t == RnAct[x[i]] IN IF t[1] = g THEN [j \in 1..t[3] |-> t[2]] ELSE <<>>], 1)
RnObs(n) == LET t == RnAct[x[n]] h == RnHist(t[1], n - 1) IN
  Arr(<<t[3]>>, "int64", [j \in 1..t[3] |-> I(RnVal(RnSeed(t[1]), h \o [i \in 1..j |-> t[2]]))])
RECURSIVE RnRun(_)
RnRun(n) == IF n = 0 THEN Fold(LAMBDA r, g : RandNext(RnNew(g), <<>>, <<>>, r), [g |-> <<>>, m |-> <<>>], <<0, 1, 2>>)
            ELSE RandNext(RnDraw(x[n]), <<>>, <<RnObs(n)>>, TLCEval(RnRun(n - 1)))
RnIsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
RnLaws ==
  x # <<>> =>
    LET n == Len(x) r == TLCEval(RnRun(n - 1)) e == RnDraw(x[n]) o == RnObs(n) t == RnAct[x[n]]
        other == 1 - t[1]
        bad == [o EXCEPT !.v[1] = I(IF @[1] = 0 THEN 1 ELSE @[1] - 1)] IN
    \* the machine is admitted
    /\ RandAllowed(e, <<>>, <<o>>, r)
    \* a deviation is admitted exactly when no generator has drawn this item of the stream before
    /\ RandAllowed(e, <<>>, <<bad>>, r) <=> ~(t[1] # 2 /\ RnIsPrefix(Append(RnHist(t[1], n - 1), t[2]), RnHist(other, n - 1)))
    \* items outside the range of the call never are
    /\ (t[2] = 2 => ~RandAllowed(e, <<>>, <<[o EXCEPT !.v[1] = I(10)]>>, r))
    \* draws of one generator change no other
    /\ LET s == RandNext(e, <<>>, <<o>>, r) IN \A g \in 0..2 : g # t[1] => s.g[g + 1] = r.g[g + 1]
RnProg == <<RnNew(0), RnNew(1), RnNew(2)>> \o MapQ(x, RnDraw)
          \* then everybody catches up
          \o CatQ([g \in 1..3 |-> <<[RnDraw(1) EXCEPT !.p.g = g - 1, !.p.size = <<5>>]>>], 1)

Laws == CASE Scenario = "sort" -> SortLaws
          [] Scenario = "types" -> TypeLaws
          [] Scenario = "bcast" -> BcastLaws
          [] Scenario = "ints" -> IntLaws
          [] Scenario = "reduce" -> ReduceLaws
          [] Scenario = "text" -> TextLaws
          [] Scenario = "casts" -> CastLaws
          [] Scenario = "contract" -> ContractLaws
          [] Scenario = "floats" -> FloatLaws
          [] Scenario = "rearr" -> RearrLaws
          [] Scenario = "dates" -> DayLaws
          [] Scenario = "gather" -> GthLaws
          [] Scenario = "grids" -> GdLaws
          [] Scenario = "nans" -> NnLaws
          [] Scenario = "diffs" -> DfLaws
          [] Scenario = "stats" -> QsLaws
          [] Scenario = "rng" -> RnLaws
          [] Scenario = "sets" -> SetLaws
Program == CASE Scenario = "sort" -> SortProg
             [] Scenario = "types" -> TypeProg
             [] Scenario = "bcast" -> BcastProg
             [] Scenario = "ints" -> IntProg
             [] Scenario = "reduce" -> ReduceProg
             [] Scenario = "text" -> TextProg
             [] Scenario = "casts" -> CastProg
             [] Scenario = "contract" -> ContractProg
             [] Scenario = "floats" -> FloatProg
             [] Scenario = "rearr" -> RearrProg
             [] Scenario = "dates" -> DayProg
             [] Scenario = "gather" -> GthProg
             [] Scenario = "grids" -> GdProg
             [] Scenario = "nans" -> NnProg
             [] Scenario = "diffs" -> DfProg
             [] Scenario = "stats" -> QsProg
             [] Scenario = "rng" -> RnProg
             [] Scenario = "sets" -> SetProg
\* the instances are reached in two steps, so that the workers share them
SX == INSTANCE SequencesExt
InstSeq == SX!SetToSeq(Instances)
Parts == 64
Spread == x # <<>> /\ x[1] = -99
Emit == Spread \/ PrintT("PROG " \o ToJson(Program))
Holds == Spread \/ Laws
Init == x = <<-99>>
Next == \/ x = <<-99>> /\ \E k \in 1..Parts : x' = <<-99, k>>
        \/ Spread /\ Len(x) = 2 /\ \E i \in {i \in 1..Len(InstSeq) : i % Parts = x[2] - 1} : x' = InstSeq[i]
Spec == Init /\ [][Next]_x
=============================================================================
