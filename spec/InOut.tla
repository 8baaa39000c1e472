------------------------------- MODULE InOut -------------------------------
(***************************************************************************)
(* Files.  The file system is a sequence of [n, c]: name and content.      *)
(* ("maybe": a damaged compressed archive: loading fails or gives the original arrays, *)
(*  since some bits of a deflate stream do not matter.)                    *)
(* Content is [k |-> "npy", ar, nm] (one array), [k |-> "npz", ar, nm]     *)
(* (named arrays), [k |-> "bytes", b] (raw bytes or text, byte by byte) or *)
(* [k |-> "bad"] (a truncated or damaged container).                       *)
(***************************************************************************)
EXTENDS Stats

\* ---------------------------------------------------------------- bytes
BitsOf(bits, i) ==             \* byte i (1-based) of a bit sequence, low bit first
  LET RECURSIVE go(_, _) go(j, s) == IF j > 7 THEN s ELSE go(j + 1, s + Pow2(j) * bits[8 * (i - 1) + j + 1]) IN go(0, 0)
FracBits(d) == CASE d = "float16" -> 10 [] d = "float32" -> 23 [] OTHER -> 52
ExpBits(d) == CASE d = "float16" -> 5 [] d = "float32" -> 8 [] OTHER -> 11
Bias(d) == Pow2(ExpBits(d) - 1) - 1
IntBits(n, w) == [i \in 1..w |-> (n \div Pow2(i - 1)) % 2]
\* the largest e with 2^e * b <= a, for a >= b > 0
RECURSIVE Log2Q(_, _)
Log2Q(a, b) == IF a < 2 * b THEN 0 ELSE 1 + Log2Q(a, 2 * b)
FloatBits(v, d) ==             \* IEEE 754 bits, low first; v dyadic, zero, infinite or NaN
  LET m == FracBits(d) x == ExpBits(d)
      s == IF v[1] < 0 \/ v = <<0, -1>> THEN 1 ELSE 0
      pack(frac, e) == frac \o IntBits(e, x) \o <<s>>
      zeros == [i \in 1..m |-> 0]
  IN IF v = NaN THEN pack([zeros EXCEPT ![m] = 1], Pow2(x) - 1)
     ELSE IF v[2] = 0 THEN pack(zeros, Pow2(x) - 1)
     ELSE IF v[1] = 0 THEN pack(zeros, 0)
     ELSE IF Len(v) = 7
     THEN LET g == Mag(v) k == TopBit(g, 69) IN
          pack([i \in 1..m |-> LET j == k - m + i - 1 IN IF j < 0 THEN 0 ELSE MagBit(g, j)], k + Bias(d))
     ELSE LET n == AbsI(v[1])
              e == IF n >= v[2] THEN Log2Q(n, v[2]) ELSE -(Log2Q(v[2], n) + (IF Pow2(Log2Q(v[2], n)) * n = v[2] THEN 0 ELSE 1))
              a == IF e < 0 THEN n * Pow2(-e) ELSE n
              b == IF e > 0 THEN v[2] * Pow2(e) ELSE v[2]
              RECURSIVE go(_, _, _)
              go(r, i, q) == IF i = 0 THEN q
                             ELSE IF 2 * r >= b THEN go(2 * r - b, i - 1, <<1>> \o q) ELSE go(2 * r, i - 1, <<0>> \o q)
          IN pack(TLCEval(go(a - b, m, <<>>)), e + Bias(d))
ScalarBytes(v, d) ==
  CASE d = "bool" -> <<v[1]>>
    [] Kind(d) \in {"i", "u"} -> Bytes(v, Width(d))
    [] Kind(d) = "f" -> LET q == TLCEval(FloatBits(v, d)) IN [i \in 1..(Width(d) \div 8) |-> BitsOf(q, i)]
RECURSIVE CatAll(_, _)
CatAll(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o CatAll(q, i + 1)
PartD(d) == IF d = "complex64" THEN "float32" ELSE "float64"
ArrayBytes(A) ==
  CatAll([i \in 1..Len(A.v) |->
           IF Kind(A.d) = "c" THEN TLCEval(ScalarBytes(Re(A.v[i]), PartD(A.d)) \o ScalarBytes(Im(A.v[i]), PartD(A.d)))
           ELSE TLCEval(ScalarBytes(A.v[i], A.d))], 1)
\* the value of the bytes of one float (exact; generated so that it is representable here)
OfFloatBytes(bs, d) ==
  LET bit(k) == (bs[(k \div 8) + 1] \div Pow2(k % 8)) % 2
      m == FracBits(d) x == ExpBits(d)
      RECURSIVE ex(_, _) ex(j, s) == IF j >= x THEN s ELSE ex(j + 1, s + Pow2(j) * bit(m + j))
      e == ex(0, 0)
      sg == IF bit(m + x) = 1 THEN -1 ELSE 1
      low == CHOOSE k \in 0..m : (k = m \/ bit(k) = 1) /\ \A j \in 0..(k - 1) : bit(j) = 0
      t == m - low                                  \* fraction bits in use
      RECURSIVE mant(_, _) mant(j, s) == IF j >= m THEN s ELSE mant(j + 1, s + Pow2(j - low) * bit(j))
      M == mant(low, Pow2(t))
      p == e - Bias(d) - t                          \* value = M * 2^p
  IN IF e = Pow2(x) - 1 THEN (IF low < m THEN NaN ELSE <<sg, 0>>)
     ELSE IF e = 0 THEN Zero
     ELSE IF p >= 0 THEN (IF p + t < 29 THEN <<sg * M * Pow2(p), 1>> ELSE FromMag(sg, MagMul(MagOfInt(M), MagPow2(p))))
     ELSE Rat(sg * M, Pow2(-p))
OfScalarBytes(bs, d) ==
  CASE d = "bool" -> Bool(bs[1] # 0)
    [] Kind(d) \in {"i", "u"} -> OfBytes(bs, Width(d), Kind(d) = "i")
    [] Kind(d) = "f" -> OfFloatBytes(bs, d)
    [] Kind(d) = "c" -> LET h == Len(bs) \div 2 IN
         Cx(OfFloatBytes(SubSeq(bs, 1, h), PartD(d)), OfFloatBytes(SubSeq(bs, h + 1, 2 * h), PartD(d)))
ItemBytes(d) == IF d = "bool" THEN 1 ELSE Width(d) \div 8
ArrayOfBytes(bs, d) == LET n == ItemBytes(d) IN
  [i \in 1..(Len(bs) \div n) |-> TLCEval(OfScalarBytes(SubSeq(bs, n * (i - 1) + 1, n * i), d))]

\* ------------------------------------------------------- numbers as text
Blank(c) == c \in {32, 9, 13, 12, 11}
Digit(c) == c \in 48..57
RECURSIVE SmallDigits(_)
SmallDigits(n) == IF n < 10 THEN <<n>> ELSE Append(SmallDigits(n \div 10), n % 10)
RECURSIVE MagDigits(_)
MagDigits(m) == IF m[2] = 0 /\ m[3] = 0 /\ m[4] = 0 /\ m[5] = 0 THEN SmallDigits(m[1])
                ELSE LET qr == TLCEval(MagDivMod(m, MagOfInt(10))) IN Append(MagDigits(qr[1]), qr[2][1])
IntDigits(v) == IF Len(v) = 7 THEN MagDigits(Mag(v)) ELSE SmallDigits(AbsI(v[1]))
Chars(q) == [i \in 1..Len(q) |-> 48 + q[i]]
Rep(c, n) == [i \in 1..(IF n < 0 THEN 0 ELSE n) |-> c]
\* decimal digits after the point of the fraction r/d (finite for dyadic d)
RECURSIVE FracDigits(_, _)
FracDigits(r, d) == IF r = 0 THEN <<>> ELSE <<(10 * r) \div d>> \o FracDigits((10 * r) % d, d)
WholeDigits(v) == IF Frac(v) THEN SmallDigits(AbsI(v[1]) \div v[2]) ELSE IntDigits(v)
PartDigits(v) == IF Frac(v) THEN FracDigits(AbsI(v[1]) % v[2], v[2]) ELSE <<>>
\* add one unit in the last place of a digit sequence
RECURSIVE IncDigits(_)
IncDigits(q) == IF q = <<>> THEN <<1>>
                ELSE IF q[Len(q)] < 9 THEN [q EXCEPT ![Len(q)] = @ + 1]
                ELSE Append(IncDigits(SubSeq(q, 1, Len(q) - 1)), 0)
\* keep m digits of q, rounding half to even
CutDigits(q, m) ==
  IF Len(q) <= m THEN q \o Rep(0, m - Len(q))
  ELSE LET keep == SubSeq(q, 1, m)
           rest == SubSeq(q, m + 1, Len(q))
           tail == \E i \in 2..Len(rest) : rest[i] > 0
           up == rest[1] > 5 \/ (rest[1] = 5 /\ (tail \/ (m > 0 /\ keep[m] % 2 = 1)))
       IN IF up THEN IncDigits(keep) ELSE keep
FixedText(v, k) ==             \* |v| with k decimals
  LET w == WholeDigits(v) q == TLCEval(CutDigits(w \o PartDigits(v), Len(w) + k))
      c == Chars(q)
  IN IF k = 0 THEN c ELSE SubSeq(c, 1, Len(c) - k) \o <<46>> \o SubSeq(c, Len(c) - k + 1, Len(c))
\* significant digits of |v| and the decimal exponent of the first
Signif(v) ==
  IF v[1] = 0 THEN <<<<0>>, 0>>
  ELSE LET w == WholeDigits(v) f == PartDigits(v) IN
       IF w # <<0>> THEN <<w \o f, Len(w) - 1>>
       ELSE LET z == CHOOSE i \in 1..Len(f) : f[i] > 0 /\ \A j \in 1..(i - 1) : f[j] = 0
            IN <<SubSeq(f, z, Len(f)), -z>>
ExpPair(v, k) ==               \* k + 1 significant digits after rounding, exponent
  LET s == TLCEval(Signif(v)) q == TLCEval(CutDigits(s[1], k + 1)) IN
  IF Len(q) > k + 1 THEN <<SubSeq(q, 1, k + 1), s[2] + 1>> ELSE <<q, s[2]>>
ExpMark(e) == <<101, IF e < 0 THEN 45 ELSE 43>> \o (IF AbsI(e) < 10 THEN <<48>> ELSE <<>>) \o Chars(SmallDigits(AbsI(e)))
Pointed(q) == IF Len(q) = 1 THEN Chars(q) ELSE <<48 + q[1], 46>> \o Chars(Tail(q))
ExpText(v, k) == LET x == TLCEval(ExpPair(v, k)) IN Pointed(x[1]) \o ExpMark(x[2])
RECURSIVE DropZeros(_)
DropZeros(c) == IF c # <<>> /\ c[Len(c)] = 48 THEN DropZeros(SubSeq(c, 1, Len(c) - 1))
                ELSE IF c # <<>> /\ c[Len(c)] = 46 THEN SubSeq(c, 1, Len(c) - 1) ELSE c
HasDot(c) == \E i \in 1..Len(c) : c[i] = 46
Strip0(c) == IF HasDot(c) THEN DropZeros(c) ELSE c
GenText(v, k0) ==
  LET k == MaxI(k0, 1) x == TLCEval(ExpPair(v, k - 1)) IN
  IF x[2] < -4 \/ x[2] >= k THEN Strip0(Pointed(x[1])) \o ExpMark(x[2]) ELSE Strip0(FixedText(v, MaxI(k - 1 - x[2], 0)))
Upper(c) == [i \in 1..Len(c) |-> IF c[i] \in 97..122 THEN c[i] - 32 ELSE c[i]]
\* the shortest text of a number (dyadic, magnitude below 10^16)
ShortText(v, d) ==
  LET neg == IF v[1] < 0 THEN <<45>> ELSE <<>> IN
  IF v = NaN THEN <<110, 97, 110>>
  ELSE IF v[2] = 0 THEN neg \o <<105, 110, 102>>
  ELSE IF Kind(d) \in {"i", "u", "b"} THEN neg \o Chars(IntDigits(v))
  ELSE LET f == PartDigits(v) IN neg \o Chars(WholeDigits(v)) \o <<46>> \o (IF f = <<>> THEN <<48>> ELSE Chars(f))
\* fm: [pre, plus, minus, blank, zero, w, k (-1 none), c, suf]
FormatReal(v0, d, fm) ==
  LET v == IF fm.c \in {"e", "f", "g", "E", "F", "G"} /\ Len(v0) = 7 THEN RoundTo(v0, "float64") ELSE v0
      k == IF fm.k < 0 THEN 6 ELSE fm.k
      t == FTrunc(v)
      special == v = NaN \/ v[2] = 0
      neg == IF fm.c = "d" THEN t[1] < 0 ELSE v # NaN /\ v[1] < 0
      body == CASE v = NaN -> <<110, 97, 110>>
                [] v # NaN /\ v[2] = 0 -> <<105, 110, 102>>
                [] ~special /\ fm.c = "d" -> LET q == Chars(IntDigits(t)) IN Rep(48, fm.k - Len(q)) \o q
                [] ~special /\ fm.c \in {"f", "F"} -> FixedText(v, k)
                [] ~special /\ fm.c \in {"e", "E"} -> ExpText(v, k)
                [] ~special /\ fm.c \in {"g", "G"} -> GenText(v, k)
      b2 == IF fm.c \in {"E", "F", "G"} THEN Upper(body) ELSE body
      sign == IF neg THEN <<45>> ELSE IF fm.plus = 1 THEN <<43>> ELSE IF fm.blank = 1 THEN <<32>> ELSE <<>>
      fill == fm.w - Len(sign) - Len(b2)
  IN fm.pre \o (IF fm.minus = 1 THEN sign \o b2 \o Rep(32, fill)
                ELSE IF fm.zero = 1 /\ ~special THEN sign \o Rep(48, fill) \o b2
                ELSE Rep(32, fill) \o sign \o b2) \o fm.suf
FormatOK(A, fm) == fm.c = "" \/ (fm.c \in {"d", "e", "f", "g", "E", "F", "G"} /\
                   (fm.c # "d" \/ \A i \in 1..Len(A.v) : \A x \in {Re(A.v[i]), Im(A.v[i])} : x # NaN /\ x[2] # 0))
RECURSIVE PlusMinus(_)
PlusMinus(c) == IF Len(c) < 2 THEN c ELSE IF c[1] = 43 /\ c[2] = 45 THEN <<45>> \o PlusMinus(SubSeq(c, 3, Len(c)))
                ELSE <<c[1]>> \o PlusMinus(Tail(c))
FormatElem(v, d, fm) ==
  IF fm.c = "" THEN ShortText(v, d)
  ELSE IF Kind(d) = "c"
  THEN PlusMinus(<<32, 40>> \o FormatReal(Re(v), d, fm) \o <<43>> \o FormatReal(Im(v), d, fm) \o <<106, 41>>)
  ELSE FormatReal(v, d, fm)

\* parsing: <<TRUE, value>> or <<FALSE>>
RECURSIVE DigitsMag(_, _, _)
DigitsMag(c, i, m) == IF i > Len(c) THEN m ELSE DigitsMag(c, i + 1, TLCEval(MagAdd(MagMul(m, MagOfInt(10)), MagOfInt(c[i] - 48))))
AllDigits(c) == \A i \in 1..Len(c) : Digit(c[i])
RECURSIVE Trim0(_)
Trim0(c) == IF c # <<>> /\ c[1] = 48 THEN Trim0(Tail(c)) ELSE c
RECURSIVE RTrim0(_)
RTrim0(c) == IF c # <<>> /\ c[Len(c)] = 48 THEN RTrim0(SubSeq(c, 1, Len(c) - 1)) ELSE c
\* n * 10^-k in lowest terms
RECURSIVE Shift10(_, _, _)
Shift10(n, k, d) == IF k = 0 THEN Rat(n, d)
                    ELSE IF n % 10 = 0 THEN Shift10(n \div 10, k - 1, d)
                    ELSE IF n % 5 = 0 THEN Shift10(n \div 5, k - 1, 2 * d)
                    ELSE IF n % 2 = 0 THEN Shift10(n \div 2, k - 1, 5 * d)
                    ELSE Shift10(n, k - 1, 10 * d)
SmallInt(c) == LET m == DigitsMag(c, 1, MagZero) IN m[1] + m[2] * B
IntInRange(v, d) == LET w == Wrap(d, v) IN w = v
Lower(c) == [i \in 1..Len(c) |-> IF c[i] \in 65..90 THEN c[i] + 32 ELSE c[i]]
ParseNum(c0, d) ==
  LET sg == IF c0 # <<>> /\ c0[1] = 45 THEN -1 ELSE 1
      c == IF c0 # <<>> /\ c0[1] \in {43, 45} THEN Tail(c0) ELSE c0
      lc == Lower(c)
  IN IF c # <<>> /\ AllDigits(c) /\ Kind(d) \in {"i", "u"}
     THEN LET v == FromMag(IF DigitsMag(c, 1, MagZero) = MagZero THEN 0 ELSE sg, DigitsMag(c, 1, MagZero)) IN
          IF IntInRange(v, d) THEN <<TRUE, v>> ELSE <<FALSE>>
     ELSE IF lc = <<110, 97, 110>> THEN <<TRUE, Cast(NaN, "float64", d)>>
     ELSE IF lc \in {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>} THEN <<TRUE, <<sg, 0>>>>
     ELSE LET ei == SelectIdx(lc, LAMBDA i : lc[i] = 101)
              man == IF ei = <<>> THEN c ELSE SubSeq(c, 1, ei[1] - 1)
              ex == IF ei = <<>> THEN <<48>> ELSE SubSeq(c, ei[1] + 1, Len(c))
              exs == IF ex # <<>> /\ ex[1] = 45 THEN -1 ELSE 1
              exd == IF ex # <<>> /\ ex[1] \in {43, 45} THEN Tail(ex) ELSE ex
              pi == SelectIdx(man, LAMBDA i : man[i] = 46)
              ip == IF pi = <<>> THEN man ELSE SubSeq(man, 1, pi[1] - 1)
              fp == IF pi = <<>> THEN <<>> ELSE SubSeq(man, pi[1] + 1, Len(man))
          IN IF ip \o fp = <<>> \/ ~AllDigits(ip) \/ ~AllDigits(fp) \/ exd = <<>> \/ ~AllDigits(exd) THEN <<FALSE>>
             ELSE LET fs == RTrim0(fp)
                      D == Trim0(ip \o fs)
                      k == exs * SmallInt(exd) - Len(fs)      \* value = D * 10^k
                      v == IF D = <<>> THEN Zero
                           ELSE IF k >= 0 THEN RoundTo(FromMag(sg, DigitsMag(D \o Rep(48, k), 1, MagZero)), "float64")
                           ELSE LET S == RTrim0(D) z == Len(D) - Len(S) IN
                                IF z >= -k THEN FromMag(sg, DigitsMag(SubSeq(D, 1, Len(D) + k), 1, MagZero))
                                ELSE LET n == DigitsMag(S, 1, MagZero) IN
                                     Shift10(sg * (n[1] + n[2] * B + n[3] * BB), -(k + z), 1)
                  IN <<TRUE, CastR(v, "float64", d)>>

\* ------------------------------------------------------------ text tables
RECURSIVE SplitOn(_, _, _)
MatchAt(c, i, s) == i + Len(s) - 1 <= Len(c) /\ \A j \in 1..Len(s) : c[i + j - 1] = s[j]
SplitOn(c, s, i) ==            \* pieces between occurrences of the non-empty s
  IF i > Len(c) THEN <<c>>
  ELSE IF MatchAt(c, i, s) THEN <<SubSeq(c, 1, i - 1)>> \o SplitOn(SubSeq(c, i + Len(s), Len(c)), s, 1)
  ELSE SplitOn(c, s, i + 1)
RECURSIVE LTrim(_)
LTrim(c) == IF c # <<>> /\ (Blank(c[1]) \/ c[1] = 10) THEN LTrim(Tail(c)) ELSE c
RECURSIVE RTrim(_)
RTrim(c) == IF c # <<>> /\ (Blank(c[Len(c)]) \/ c[Len(c)] = 10) THEN RTrim(SubSeq(c, 1, Len(c) - 1)) ELSE c
TrimC(c) == RTrim(LTrim(c))
NonEmpty(q) == LET ix == SelectIdx(q, LAMBDA i : q[i] # <<>>) IN [i \in 1..Len(ix) |-> q[ix[i]]]
Words(c) == NonEmpty(SplitOn([i \in 1..Len(c) |-> IF Blank(c[i]) \/ c[i] = 10 THEN 32 ELSE c[i]], <<32>>, 1))
LinesOf(c) == LET q == SplitOn(c, <<10>>, 1) IN
  IF q[Len(q)] = <<>> THEN SubSeq(q, 1, Len(q) - 1) ELSE q
NoComment(c, cm) == IF cm = <<>> THEN c ELSE SplitOn(c, cm, 1)[1]
Cols(c, dl) == IF dl = <<>> THEN Words(c) ELSE LET q == SplitOn(c, dl, 1) IN [i \in 1..Len(q) |-> TrimC(q[i])]
\* rows of tokens: skip raw lines at both ends, drop comments and blank lines, keep at most p.maxr
Table(c, p) ==
  LET L == LinesOf(c)
      body == SubSeq(L, p.skip + 1, Len(L) - p.foot)
      q == [i \in 1..Len(body) |-> TrimC(NoComment(body[i], p.com))]
      r == NonEmpty(q)
      m == IF p.maxr < 0 THEN Len(r) ELSE MinI(p.maxr, Len(r))
  IN [i \in 1..m |-> TLCEval(Cols(r[i], p.delim))]
PickCols(row, p) == IF p.usecols = <<-1>> THEN row ELSE [i \in 1..Len(p.usecols) |-> row[p.usecols[i] + 1]]
\* numbers of a table; gen: missing or unreadable entries take the filling value
TableArray(c, p, gen) ==
  LET T0 == TLCEval(Table(c, p))
      okc == p.usecols = <<-1>> \/ \A i \in 1..Len(T0) : \A j \in 1..Len(p.usecols) : p.usecols[j] < Len(T0[i])
      T == TLCEval([i \in 1..Len(T0) |-> PickCols(T0[i], p)])
  IN IF ~okc THEN <<FALSE>>
     ELSE IF T = <<>> THEN <<TRUE, Arr(<<0, 0>>, p.d, <<>>)>>
     ELSE LET nc == Len(T[1])
              cell(i, j) == LET t == T[i][j] n == TLCEval(ParseNum(t, p.d)) IN
                 IF gen /\ (t = <<>> \/ t = p.missing \/ ~n[1]) THEN <<TRUE, CastR(p.fill, "float64", p.d)>> ELSE n
          IN IF \E i \in 1..Len(T) : Len(T[i]) # nc THEN <<FALSE>>
             ELSE LET q == TLCEval([k \in 1..(Len(T) * nc) |-> TLCEval(cell(((k - 1) \div nc) + 1, ((k - 1) % nc) + 1))]) IN
                  IF \E k \in 1..Len(q) : ~q[k][1] THEN <<FALSE>>
                  ELSE <<TRUE, Arr(IF nc = 1 THEN <<Len(T)>> ELSE <<Len(T), nc>>, p.d, [k \in 1..Len(q) |-> q[k][2]])>>
\* text of an array of one or two dimensions
NoteLines(c, com, nl) == IF c = <<>> THEN <<>>
  ELSE LET L == LinesOf(c) IN CatAll([i \in 1..Len(L) |-> com \o L[i] \o nl], 1)
TableText(A, p) ==
  LET nr == A.s[1] nc == IF Len(A.s) = 1 THEN 1 ELSE A.s[2]
      el(i, j) == FormatElem(A.v[nc * (i - 1) + j], A.d, p.fm)
      row(i) == CatAll([j \in 1..nc |-> (IF j = 1 THEN <<>> ELSE p.delim) \o TLCEval(el(i, j))], 1)
  IN NoteLines(p.header, p.com, p.nl) \o CatAll([i \in 1..nr |-> TLCEval(row(i)) \o p.nl], 1) \o NoteLines(p.footer, p.com, p.nl)
SepText(A, p) == CatAll([i \in 1..Len(A.v) |-> (IF i = 1 THEN <<>> ELSE p.sep) \o TLCEval(FormatElem(A.v[i], A.d, p.fm))], 1)

\* -------------------------------------------------------------- the calls
FsOps == {"fsave", "fload", "ftofile", "ffromfile", "fwrite", "fread", "ftrunc", "fdamage", "fremove",
          "fsavetxt", "floadtxt", "fdumps", "finfo"}
FileOf(fs, n) == SelectIdx(fs, LAMBDA i : fs[i].n = n)
PutFile(fs, n, c) == LET k == FileOf(fs, n) IN
  IF k = <<>> THEN Append(fs, [n |-> n, c |-> c]) ELSE [fs EXCEPT ![k[1]].c = c]
ArrName(i) == <<97, 114, 114, 95>> \o Chars(SmallDigits(i))
FsRes(r, fs) == [err |-> "", res |-> [i \in 1..Len(r) |-> [t |-> "arr", a |-> r[i]]], fs |-> fs]
FsErr(fs) == [err |-> "E", res |-> <<>>, fs |-> fs]
FsStep(e, A, fs) ==
  LET p == e.p op == e.op
      k == FileOf(fs, p.file)
      has == k # <<>>
      c == IF has THEN fs[k[1]].c ELSE [k |-> "none"]
  IN
  IF p.file < 0 THEN FsErr(fs)        \* a path in a directory that does not exist
  ELSE CASE op = "fsave" ->
         FsRes(<<>>, PutFile(fs, p.file,
           IF p.npz = 0 THEN [k |-> "npy", ar |-> <<A[1]>>, nm |-> <<>>]
           ELSE LET m == Len(A) - Len(p.names)
                    un == [i \in 1..m |-> ArrName(i - 1)]
                IN IF p.by = "np"      \* NumPy stores the keyword arrays first
                   THEN [k |-> "npz", comp |-> p.comp, ar |-> SubSeq(A, m + 1, Len(A)) \o SubSeq(A, 1, m), nm |-> p.names \o un]
                   ELSE [k |-> "npz", comp |-> p.comp, ar |-> A, nm |-> un \o p.names]))
    [] op = "fload" ->
         IF ~has \/ c.k \notin {"npy", "npz", "maybe"} \/ (c.k # "npy") # (p.npz = 1) THEN FsErr(fs)
         ELSE IF c.k = "maybe" /\ e.err # "" THEN FsErr(fs)
         ELSE IF c.k = "npy" THEN FsRes(c.ar, fs)
         ELSE FsRes(Append(c.ar, Arr(<<Len(c.nm)>>, "py", c.nm)), fs)
    [] op = "finfo" ->         \* version, header alignment, header end, data size
         IF ~has \/ c.k # "npy" THEN FsErr(fs)
         ELSE FsRes(<<Arr(<<4>>, "int64", <<One, Zero, I(10), I(Len(c.ar[1].v) * ItemBytes(c.ar[1].d))>>)>>, fs)
    [] op = "ftofile" ->
         IF p.sep # <<>> /\ ~FormatOK(A[1], p.fm) THEN FsErr(fs)
         ELSE FsRes(<<>>, PutFile(fs, p.file, [k |-> "bytes", b |-> TLCEval(IF p.sep = <<>> THEN ArrayBytes(A[1]) ELSE SepText(A[1], p))]))
    [] op = "ffromfile" ->
         IF ~has THEN FsErr(fs)
         ELSE IF p.sep # <<>>
         THEN IF p.off # 0 THEN FsErr(fs)
              ELSE LET sp == TrimC(p.sep)
                       w == IF sp = <<>> THEN Words(c.b)
                            ELSE LET q == SplitOn(c.b, sp, 1) IN NonEmpty([i \in 1..Len(q) |-> TrimC(q[i])])
                       m == IF p.count < 0 THEN Len(w) ELSE MinI(p.count, Len(w))
                       v == TLCEval([i \in 1..m |-> TLCEval(ParseNum(w[i], p.d))])
                   IN IF \E i \in 1..m : ~v[i][1] THEN FsErr(fs)
                      ELSE FsRes(<<Arr(<<m>>, p.d, [i \in 1..m |-> v[i][2]])>>, fs)
         ELSE LET n == ItemBytes(p.d)
                  av == MaxI(Len(c.b) - p.off, 0) \div n
                  m == IF p.count < 0 THEN av ELSE MinI(p.count, av)
              IN FsRes(<<Arr(<<m>>, p.d, ArrayOfBytes(SubSeq(c.b, p.off + 1, p.off + m * n), p.d))>>, fs)
    [] op = "fwrite" -> FsRes(<<>>, PutFile(fs, p.file, [k |-> "bytes", b |-> p.b]))
    [] op = "fread" ->
         IF ~has \/ c.k # "bytes" THEN FsErr(fs)
         ELSE FsRes(<<Arr(<<Len(c.b)>>, "int64", [i \in 1..Len(c.b) |-> I(c.b[i])])>>, fs)
    [] op = "ftrunc" ->        \* the last p.cut bytes are lost
         IF ~has THEN FsErr(fs)
         ELSE FsRes(<<>>, PutFile(fs, p.file,
                IF c.k = "bytes" THEN [c EXCEPT !.b = SubSeq(@, 1, MaxI(Len(@) - p.cut, 0))] ELSE [k |-> "bad"]))
    [] op = "fdamage" -> IF ~has THEN FsErr(fs)
         ELSE FsRes(<<>>, PutFile(fs, p.file, IF c.k = "npz" /\ c.comp = 1 THEN [c EXCEPT !.k = "maybe"] ELSE [k |-> "bad"]))
    [] op = "fremove" -> IF ~has THEN FsErr(fs)
                         ELSE FsRes(<<>>, SubSeq(fs, 1, k[1] - 1) \o SubSeq(fs, k[1] + 1, Len(fs)))
    [] op = "fsavetxt" ->
         IF ~FormatOK(A[1], p.fm) THEN FsErr(fs)
         ELSE FsRes(<<>>, PutFile(fs, p.file, [k |-> "bytes", b |-> TLCEval(TableText(A[1], p))]))
    [] op = "floadtxt" ->
         IF ~has THEN FsErr(fs)
         ELSE LET t == TLCEval(TableArray(c.b, p, p.gen = 1)) IN IF t[1] THEN FsRes(<<t[2]>>, fs) ELSE FsErr(fs)
    [] op = "fdumps" -> FsRes(<<A[1]>>, fs)
=============================================================================
