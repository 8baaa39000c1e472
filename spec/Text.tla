-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Arrays of strings (rumpy.char).  A string is the sequence of its code   *)
(* points; every function is the operation on one string, applied to each  *)
(* element.  Characters are taken from alphabets whose case mapping is one *)
(* to one.                                                                 *)
(***************************************************************************)
EXTENDS DateTime

(* ------------------------------- characters ------------------------------ *)
UpC(c) == c \in 65..90 \/ c \in (192..222) \ {215} \/ c \in (913..939) \ {930} \/ c \in 1040..1071
LoC(c) == c \in 97..122 \/ c \in (224..254) \ {247} \/ c \in 945..971 \/ c \in 1072..1103
ToUp(c) == IF LoC(c) THEN c - 32 ELSE c
ToLo(c) == IF UpC(c) THEN c + 32 ELSE c
Letter(c) == UpC(c) \/ LoC(c) \/ c \in 1488..1514 \/ c \in 19968..40869
SpaceC(c) == c \in 9..13 \/ c \in {32, 133, 160, 12288} \/ c \in 8192..8202
Numeric(c) == Digit(c) \/ c \in 188..190
Cased(c) == UpC(c) \/ LoC(c)

(* ------------------------------ one string ------------------------------- *)
TMap(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
CharAll(q, P(_)) == q # <<>> /\ \A i \in 1..Len(q) : P(q[i])
TitleAt(q, i) == i = 1 \/ ~Cased(q[i - 1])           \* q[i] begins a word
Title(q) == [i \in 1..Len(q) |-> IF TitleAt(q, i) THEN ToUp(q[i]) ELSE ToLo(q[i])]
TextUn(f, q) ==
  CASE f = "upper" -> TMap(q, ToUp)
    [] f = "lower" -> TMap(q, ToLo)
    [] f = "swapcase" -> TMap(q, LAMBDA c : IF UpC(c) THEN ToLo(c) ELSE ToUp(c))
    [] f = "capitalize" -> [i \in 1..Len(q) |-> IF i = 1 THEN ToUp(q[i]) ELSE ToLo(q[i])]
    [] f = "title" -> Title(q)
TextIs(f, q) ==
  CASE f = "isalpha" -> CharAll(q, Letter)
    [] f \in {"isdigit", "isdecimal"} -> CharAll(q, Digit)
    [] f = "isnumeric" -> CharAll(q, Numeric)
    [] f = "isalnum" -> CharAll(q, LAMBDA c : Letter(c) \/ Numeric(c))
    [] f = "isspace" -> CharAll(q, SpaceC)
    [] f = "isupper" -> (\E i \in 1..Len(q) : Cased(q[i])) /\ \A i \in 1..Len(q) : ~LoC(q[i])
    [] f = "islower" -> (\E i \in 1..Len(q) : Cased(q[i])) /\ \A i \in 1..Len(q) : ~UpC(q[i])
    [] f = "istitle" -> (\E i \in 1..Len(q) : Cased(q[i]))
                        /\ \A i \in 1..Len(q) : Cased(q[i]) => (IF TitleAt(q, i) THEN UpC(q[i]) ELSE LoC(q[i]))
LStrip(q, P(_)) == LET K == {i \in 1..Len(q) : ~P(q[i])} IN
  IF K = {} THEN <<>> ELSE SubSeq(q, CHOOSE i \in K : \A j \in K : i <= j, Len(q))
RStrip(q, P(_)) == LET K == {i \in 1..Len(q) : ~P(q[i])} IN
  IF K = {} THEN <<>> ELSE SubSeq(q, 1, CHOOSE i \in K : \A j \in K : i >= j)
TextStrip(f, q, P(_)) == LET r == IF f = "rstrip" THEN q ELSE LStrip(q, P) IN IF f = "lstrip" THEN r ELSE RStrip(r, P)

\* the slice q[lo:hi] (0-based, Python rules); a missing bound is <<>>
SliceLo(n, a) == IF a = <<>> THEN 0 ELSE IF a[1] < 0 THEN MaxI(0, n + a[1]) ELSE a[1]
SliceHi(n, b) == IF b = <<>> THEN n ELSE MinI(n, IF b[1] < 0 THEN MaxI(0, n + b[1]) ELSE b[1])
OccursAt(q, sub, i) == i + Len(sub) <= Len(q) /\ \A j \in 1..Len(sub) : q[i + j] = sub[j]   \* i 0-based
Places(q, sub, lo, hi) == {i \in lo..(hi - Len(sub)) : OccursAt(q, sub, i)}
RECURSIVE Disjoint(_, _)       \* non-overlapping occurrences, leftmost first
Disjoint(S, n) ==
  IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o Disjoint({j \in S : j >= i + n}, n)
TextFind(f, q, sub, a, b) ==
  LET lo == SliceLo(Len(q), a) hi == SliceHi(Len(q), b)
      S == IF lo > hi THEN {} ELSE Places(q, sub, lo, hi)
  IN CASE f \in {"find", "index"} -> IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
       [] f \in {"rfind", "rindex"} -> IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
       [] f = "count" -> Len(Disjoint(S, MaxI(1, Len(sub))))
       [] f = "startswith" -> IF lo \in S THEN 1 ELSE 0
       [] f = "endswith" -> IF hi - Len(sub) \in S THEN 1 ELSE 0
RECURSIVE CutAt(_, _, _, _)    \* replace the m-long stretches at the places s (0-based, from position k on) by new
CutAt(q, s, k, mn) ==
  IF s = <<>> THEN SubSeq(q, k + 1, Len(q))
  ELSE SubSeq(q, k + 1, s[1]) \o mn[2] \o CutAt(q, Tail(s), s[1] + mn[1], mn)
TextReplace(q, old, new, cnt) ==
  LET s == TLCEval(Disjoint(Places(q, old, 0, Len(q)), MaxI(1, Len(old)))) IN
  CutAt(q, IF cnt = <<>> THEN s ELSE SubSeq(s, 1, MinI(cnt[1], Len(s))), 0, <<Len(old), new>>)
TextPart(f, q, sep) ==
  LET i == TextFind(IF f = "partition" THEN "find" ELSE "rfind", q, sep, <<>>, <<>>) IN
  IF i < 0 THEN (IF f = "partition" THEN <<q, <<>>, <<>>>> ELSE <<<<>>, <<>>, q>>)
  ELSE <<SubSeq(q, 1, i), sep, SubSeq(q, i + Len(sep) + 1, Len(q))>>
TextPad(f, q, w, c) ==
  LET k == w - Len(q)
      l == CASE f = "ljust" -> 0 [] f = "rjust" -> k
             [] f = "center" -> (k \div 2) + (IF k % 2 = 1 /\ w % 2 = 1 THEN 1 ELSE 0)
  IN IF k <= 0 THEN q ELSE Rep(c, l) \o q \o Rep(c, k - l)
TextZfill(q, w) ==
  LET z == Rep(48, MaxI(0, w - Len(q))) IN
  IF q # <<>> /\ q[1] \in {43, 45} THEN <<q[1]>> \o z \o Tail(q) ELSE z \o q
RECURSIVE TextTabs(_, _, _)    \* col: column of the next character
TextTabs(q, t, col) ==
  IF q = <<>> THEN <<>>
  ELSE LET k == IF t = 0 THEN 0 ELSE t - (col % t) IN
       IF q[1] = 9 THEN Rep(32, k) \o TextTabs(Tail(q), t, col + k)
       ELSE <<q[1]>> \o TextTabs(Tail(q), t, IF q[1] \in {10, 13} THEN 0 ELSE col + 1)
TextJoin(sep, q) == IF q = <<>> THEN <<>> ELSE Fold(LAMBDA r, c : r \o sep \o <<c>>, <<q[1]>>, Tail(q))
RECURSIVE TextRep(_, _)
TextRep(q, k) == IF k = 0 THEN <<>> ELSE q \o TextRep(q, k - 1)
RECURSIVE LexCmp(_, _)         \* code point order
LexCmp(x, y) ==
  IF x = <<>> \/ y = <<>> THEN (IF x # <<>> THEN 1 ELSE IF y # <<>> THEN -1 ELSE 0)
  ELSE IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1) ELSE LexCmp(Tail(x), Tail(y))
TextRel(f, x, y) ==
  LET c == LexCmp(x, y) IN
  CASE f = "equal" -> c = 0 [] f = "not_equal" -> c # 0 [] f = "less" -> c < 0 [] f = "less_equal" -> c <= 0
    [] f = "greater" -> c > 0 [] f = "greater_equal" -> c >= 0

(* --------------------------------- dispatch ------------------------------ *)
TextOps == {"txun", "txis", "txlen", "txbin", "txrel", "txstrip", "txfind", "txreplace", "txpart", "txpad", "txzfill",
            "txtabs", "txjoin", "txmul", "txsame"}
TextApply(e, A) ==
  LET p == e.p x == A[1] IN
  IF \E i \in 1..Len(A) : A[i].d # "str" THEN Err
  ELSE CASE e.op = "txun" -> Ok1(Map(x, "str", LAMBDA q : TextUn(p.f, q)))
    [] e.op = "txis" -> Ok1(Map(x, "bool", LAMBDA q : Bool(TextIs(p.f, q))))
    [] e.op = "txlen" -> Ok1(Map(x, "int64", LAMBDA q : I(Len(q))))
    [] e.op = "txbin" -> IF ~BcastOK2(x.s, A[2].s) THEN Err
                         ELSE Ok1(Zip2(x, A[2], Bcast2(x.s, A[2].s), "str", LAMBDA q, r : q \o r))
    [] e.op = "txrel" -> IF ~BcastOK2(x.s, A[2].s) THEN Err
                         ELSE Ok1(Zip2(x, A[2], Bcast2(x.s, A[2].s), "bool", LAMBDA q, r : Bool(TextRel(p.f, q, r))))
    [] e.op = "txstrip" ->
         Ok1(Map(x, "str", LAMBDA q : IF p.has = 1 THEN TextStrip(p.f, q, LAMBDA c : c \in Range(p.q)) ELSE TextStrip(p.f, q, SpaceC)))
    [] e.op = "txfind" ->
         (LET R == Map(x, IF p.f \in {"startswith", "endswith"} THEN "bool" ELSE "int64", LAMBDA q : I(TextFind(p.f, q, p.q, p.lo, p.up))) IN
          IF p.f \in {"index", "rindex"} /\ \E i \in 1..Len(R.v) : R.v[i] = I(-1) THEN Err ELSE Ok1(R))
    [] e.op = "txreplace" -> Ok1(Map(x, "str", LAMBDA q : TextReplace(q, p.q, p.r, p.cnt)))
    [] e.op = "txpart" -> IF p.q = <<>> THEN Err
         ELSE (LET parts == TLCEval([i \in 1..Len(x.v) |-> TextPart(p.f, x.v[i], p.q)]) IN
               Ok1(Arr(x.s \o <<3>>, "str", [i \in 1..(3 * Len(x.v)) |-> parts[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]])))
    [] e.op = "txpad" -> IF Len(p.q) # 1 THEN Err ELSE Ok1(Map(x, "str", LAMBDA q : TextPad(p.f, q, p.w, p.q[1])))
    [] e.op = "txzfill" -> Ok1(Map(x, "str", LAMBDA q : TextZfill(q, p.w)))
    [] e.op = "txtabs" -> Ok1(Map(x, "str", LAMBDA q : TextTabs(q, p.w, 0)))
    [] e.op = "txjoin" -> Ok1(Map(x, "str", LAMBDA q : TextJoin(p.q, q)))
    [] e.op = "txsame" -> OkS(Bool(x.s = A[2].s /\ x.v = A[2].v))        \* array_equal
    [] e.op = "txmul" -> Ok1(Map(x, "str", LAMBDA q : TextRep(q, p.w)))
=============================================================================
