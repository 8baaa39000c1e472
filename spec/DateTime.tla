------------------------------ MODULE DateTime ------------------------------
(***************************************************************************)
(* datetime64 and timedelta64: the proleptic Gregorian calendar, units,    *)
(* arithmetic and comparison with NaT, parsing, rendering, business days.  *)
(* A datetime is the integer number of units since 1970-01-01T00:00; NaT   *)
(* is <<0, 0>>.                                                            *)
(***************************************************************************)
EXTENDS InOut

NaT == NaN
UnitM == <<"datetime64[Y]", "datetime64[M]", "datetime64[W]", "datetime64[D]", "datetime64[h]",
           "datetime64[m]", "datetime64[s]", "datetime64[ms]", "datetime64[us]", "datetime64[ns]">>
UnitT == <<"timedelta64[Y]", "timedelta64[M]", "timedelta64[W]", "timedelta64[D]", "timedelta64[h]",
           "timedelta64[m]", "timedelta64[s]", "timedelta64[ms]", "timedelta64[us]", "timedelta64[ns]">>
uY == 1
uM == 2
uW == 3
uD == 4
IsDate(d) == d \in {UnitM[i] : i \in 1..10}
IsDelta(d) == d \in {UnitT[i] : i \in 1..10}
IsTime(d) == IsDate(d) \/ IsDelta(d)
UnitOf(d) == CHOOSE i \in 1..10 : UnitM[i] = d \/ UnitT[i] = d
CalU(u) == u <= 2

(* -------------------------------- calendar ------------------------------- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
LeapsTo(y) == (y \div 4) - (y \div 100) + (y \div 400)       \* leap years in 1..y (negative before)
YearStart(y) == 365 * (y - 1970) + LeapsTo(y - 1) - LeapsTo(1969)
DaysBefore(y, m) == SumI([i \in 1..(m - 1) |-> MonthLen(y, i)])   \* days of year y before month m
DayNumber(y, m, dd) == YearStart(y) + DaysBefore(y, m) + dd - 1
\* the year, month and day of day number n
Civil(n) ==
  LET era == (n + 719528) \div 146097        \* day 0 of year 0 is -719528
      est == 400 * era + ((((n + 719528) % 146097) * 400) \div 146097)
      y == CHOOSE k \in {est - 1, est, est + 1} : YearStart(k) <= n /\ n < YearStart(k + 1)
      r == n - YearStart(y)
      m == CHOOSE k \in 1..12 : DaysBefore(y, k) <= r /\ r < DaysBefore(y, k) + MonthLen(y, k)
  IN <<y, m, r - DaysBefore(y, m) + 1>>
Weekday(n) == (n + 3) % 7                   \* 0 = Monday; 1970-01-01 was a Thursday

(* ---------------------------------- units -------------------------------- *)
UnitRatio == <<0, 0, 7, 24, 60, 60, 1000, 1000, 1000>>     \* one unit u in units of u + 1, u >= weeks
RECURSIVE PerUnit(_, _)                     \* how many units w make one u, fixed units u <= w
PerUnit(u, w) == IF u = w THEN One ELSE TLCEval(IntMul(I(UnitRatio[u]), PerUnit(u + 1, w)))
InI64(v) == LET m == Mag(v) IN IF v = NaT THEN FALSE ELSE
            MagCmp(m, MagPow2(63)) < 0
Bounded(v) == IF InI64(v) THEN v ELSE NaT
Rescale(v, u, w) == IF u <= w THEN Bounded(IntMul(v, PerUnit(u, w))) ELSE IntDivMod(v, PerUnit(w, u))[1]
\* a date in unit u as a date in unit w, rounding down
ConvDate(v, u, w) ==
  IF v = NaT \/ u = w THEN v
  ELSE IF u = uY /\ w = uM THEN IntMul(v, I(12))
  ELSE IF u = uM /\ w = uY THEN I(v[1] \div 12)
  ELSE IF u = uY THEN Rescale(Canon(YearStart(1970 + v[1])), uD, w)
  ELSE IF u = uM THEN Rescale(Canon(DayNumber(1970 + (v[1] \div 12), (v[1] % 12) + 1, 1)), uD, w)
  ELSE IF CalU(w) THEN LET c == Civil(Rescale(v, u, uD)[1]) IN
       I(IF w = uY THEN c[1] - 1970 ELSE (c[1] - 1970) * 12 + c[2] - 1)
  ELSE Rescale(v, u, w)
\* a duration; 4800 months are 146097 days on average
MeanNum(u) == IF u = uY THEN I(12 * 146097) ELSE IF u = uM THEN I(146097) ELSE I(4800)
ConvDelta(v, u, w) ==
  IF v = NaT \/ u = w THEN v
  ELSE IF CalU(u) = CalU(w) THEN (IF CalU(u) THEN (IF u = uY THEN IntMul(v, I(12)) ELSE I(v[1] \div 12)) ELSE Rescale(v, u, w))
  ELSE IF CalU(u) THEN Bounded(IF w = uW THEN IntDivMod(IntMul(v, MeanNum(u)), I(4800 * 7))[1]
                               ELSE IF w >= 7 THEN IntMul(IntMul(v, MeanNum(u)), IntMul(I(18), PerUnit(7, w)))   \* 86400 = 18 * 4800
                               ELSE IntDivMod(IntMul(IntMul(v, MeanNum(u)), PerUnit(uD, w)), I(4800))[1])
  ELSE IF u = uW THEN IntDivMod(IntMul(v, I(4800 * 7)), MeanNum(w))[1]
  ELSE IntDivMod(IntMul(v, I(4800)), IntMul(MeanNum(w), PerUnit(uD, u)))[1]
\* the values of A in unit u
InUnit(A, u) == LET k == UnitOf(A.d) IN
  Arr(A.s, A.d, [i \in 1..Len(A.v) |-> TLCEval(IF IsDate(A.d) THEN ConvDate(A.v[i], k, u) ELSE ConvDelta(A.v[i], k, u))])
\* common unit of two operands: 0 when there is none
CommonU(x, y) == LET u == MaxI(UnitOf(x), UnitOf(y)) IN
  IF (IsDate(x) \/ CalU(UnitOf(x)) = CalU(u)) /\ (IsDate(y) \/ CalU(UnitOf(y)) = CalU(u)) THEN u ELSE 0

(* ------------------------------- arithmetic ------------------------------ *)
W64(v) == Wrap("int64", v)
NatOr(a, b, r) == IF a = NaT \/ b = NaT THEN NaT ELSE r
\* result type and element function name of f on dtypes x, y with common unit u
DtType(f, x, y, u) ==          \* "" when the combination has no meaning
  LET n == (IF IsDate(x) THEN 1 ELSE 0) + (IF IsDate(y) THEN 1 ELSE 0) IN
  CASE f = "add" -> (IF n = 2 THEN "" ELSE IF n = 1 THEN UnitM[u] ELSE UnitT[u])
    [] f = "subtract" -> (IF n = 1 /\ IsDate(y) THEN "" ELSE IF n = 1 THEN UnitM[u] ELSE UnitT[u])
    [] f \in {"maximum", "minimum", "fmax", "fmin"} -> (IF n = 1 THEN "" ELSE IF n = 2 THEN UnitM[u] ELSE UnitT[u])
    [] f = "divide" -> (IF n = 0 THEN "float64" ELSE "")
    [] f = "floor_divide" -> (IF n = 0 THEN "int64" ELSE "")
    [] f = "remainder" -> (IF n = 0 THEN UnitT[u] ELSE "")
    [] OTHER -> ""
DtElem(f, a, b) ==
  CASE f = "add" -> NatOr(a, b, W64(IntAdd(a, b)))
    [] f = "subtract" -> NatOr(a, b, W64(IntSub(a, b)))
    [] f = "maximum" -> NatOr(a, b, IF IntCmp(a, b) >= 0 THEN a ELSE b)
    [] f = "minimum" -> NatOr(a, b, IF IntCmp(a, b) <= 0 THEN a ELSE b)
    [] f = "fmax" -> (IF a = NaT THEN b ELSE IF b = NaT THEN a ELSE IF IntCmp(a, b) >= 0 THEN a ELSE b)
    [] f = "fmin" -> (IF a = NaT THEN b ELSE IF b = NaT THEN a ELSE IF IntCmp(a, b) <= 0 THEN a ELSE b)
    [] f = "divide" -> NatOr(a, b, Z(SDiv(a, b)))
    [] f = "floor_divide" -> (IF a = NaT \/ b = NaT \/ b = Zero THEN Zero ELSE IntDivMod(a, b)[1])
    [] f = "remainder" -> (IF a = NaT \/ b = NaT \/ b = Zero THEN NaT ELSE IntDivMod(a, b)[2])
\* with a plain integer: a duration of the same unit, or a factor
DtIntType(f, x, y) ==
  LET t == IF IsTime(x) THEN x ELSE y IN
  CASE f = "add" -> t
    [] f = "subtract" -> (IF IsTime(x) \/ IsDelta(y) THEN t ELSE "")
    [] f = "multiply" -> (IF IsDelta(t) THEN t ELSE "")
    [] f \in {"divide", "floor_divide"} -> (IF IsDelta(x) THEN t ELSE "")
    [] OTHER -> ""
TruncDiv(a, b) == LET q == IntDivMod(IntAbs(a), IntAbs(b))[1] IN IF Sgn(a) * Sgn(b) < 0 THEN IntNeg(q) ELSE q
DtIntElem(f, a, b) ==
  IF a = NaT \/ b = NaT THEN NaT ELSE
  CASE f = "add" -> W64(IntAdd(a, b))
    [] f = "subtract" -> W64(IntSub(a, b))
    [] f = "multiply" -> W64(IntMul(a, b))
    [] f = "divide" -> (IF b = Zero THEN NaT ELSE TruncDiv(a, b))
    [] f = "floor_divide" -> (IF b = Zero THEN NaT ELSE IntDivMod(a, b)[1])
\* a duration scaled by a real number: whole units, truncated
DtFloatElem(f, a, b) ==
  IF a = NaT \/ b = NaN THEN NaT ELSE
  LET r == CASE f = "multiply" -> SMul(a, b) [] f = "divide" -> SDiv(a, b)
             [] f = "floor_divide" -> (LET q == SDiv(a, b) IN IF IsInf(q) \/ IsNaN(q) THEN q ELSE FFloor(q))
  IN IF IsNaN(r) \/ IsInf(r) THEN NaT ELSE FTrunc(Z(r))
IntD(d) == IsIntT(d) \/ d = "bool"
DtBin(f, x, y) ==
  IF ~BcastOK2(x.s, y.s) THEN Err ELSE
  LET s == Bcast2(x.s, y.s) IN
  IF IsTime(x.d) /\ IsTime(y.d) THEN
    (LET u == CommonU(x.d, y.d) IN
     IF u = 0 THEN Err ELSE LET t == DtType(f, x.d, y.d, u) IN
     IF t = "" THEN Err ELSE Ok1(Zip2(InUnit(x, u), InUnit(y, u), s, t, LAMBDA a, b : DtElem(f, a, b))))
  ELSE IF (IsTime(x.d) /\ IntD(y.d)) \/ (IsTime(y.d) /\ IntD(x.d)) THEN
    (LET t == DtIntType(f, x.d, y.d) IN IF t = "" THEN Err ELSE Ok1(Zip2(x, y, s, t, LAMBDA a, b : DtIntElem(f, a, b))))
  ELSE IF IsDelta(x.d) /\ Kind(y.d) = "f" /\ f \in {"multiply", "divide", "floor_divide"} THEN
    Ok1(Zip2(x, y, s, x.d, LAMBDA a, b : DtFloatElem(f, a, b)))
  ELSE IF IsDelta(y.d) /\ Kind(x.d) = "f" /\ f = "multiply" THEN
    Ok1(Zip2(x, y, s, y.d, LAMBDA a, b : DtFloatElem(f, b, a)))
  ELSE Err
DtRel(f, a, b) ==
  IF a = NaT \/ b = NaT THEN Bool(f = "not_equal")
  ELSE LET c == IntCmp(a, b) IN
       Bool(CASE f = "less" -> c < 0 [] f = "less_equal" -> c <= 0 [] f = "greater" -> c > 0
              [] f = "greater_equal" -> c >= 0 [] f = "equal" -> c = 0 [] f = "not_equal" -> c # 0)
DtCmp(f, x, y) ==
  IF ~BcastOK2(x.s, y.s) THEN Err ELSE
  LET s == Bcast2(x.s, y.s)
      plain == (IsDelta(x.d) /\ IsIntT(y.d)) \/ (IsDelta(y.d) /\ IsIntT(x.d))
      u == IF IsTime(x.d) /\ IsTime(y.d) /\ IsDate(x.d) = IsDate(y.d) THEN CommonU(x.d, y.d) ELSE 0
  IN IF plain THEN Ok1(Zip2(x, y, s, "bool", LAMBDA a, b : DtRel(f, a, b)))
     ELSE IF u # 0 THEN Ok1(Zip2(InUnit(x, u), InUnit(y, u), s, "bool", LAMBDA a, b : DtRel(f, a, b)))
     \* no common unit: unequal, and without an order
     ELSE IF f \in {"equal", "not_equal"} THEN Ok1(Arr(s, "bool", Const(Size(s), Bool(f = "not_equal"))))
     ELSE Err
DtUn(f, A) ==
  CASE f \in {"isnat", "isnan"} -> Ok1(Map(A, "bool", LAMBDA a : Bool(a = NaT)))
    [] f = "isfinite" -> Ok1(Map(A, "bool", LAMBDA a : Bool(a # NaT)))
    [] ~IsDelta(A.d) -> Err
    [] f = "negative" -> Ok1(Map(A, A.d, LAMBDA a : IF a = NaT THEN a ELSE W64(IntNeg(a))))
    [] f = "absolute" -> Ok1(Map(A, A.d, LAMBDA a : IF a = NaT THEN a ELSE W64(IntAbs(a))))
    [] f = "sign" -> Ok1(Map(A, A.d, LAMBDA a : IF a = NaT THEN a ELSE I(Sgn(a))))
    [] OTHER -> Err
\* extremes along an axis: NaT propagates
DtFold(f, q) == IF Len(q) = 1 THEN q[1] ELSE Fold(LAMBDA a, b : DtElem(f, a, b), q[1], Tail(q))
RECURSIVE DtDiff(_, _, _)
DtDiff(A, ax, n) ==
  IF n = 0 THEN A
  ELSE LET m == A.s[ax + 1] t == UnitT[UnitOf(A.d)] IN
       IF m <= n THEN Arr([A.s EXCEPT ![ax + 1] = 0], t, <<>>)
       ELSE DtDiff([AlongMap(A, ax, m - 1, A.d, LAMBDA q : [i \in 1..(m - 1) |-> DtElem("subtract", q[i + 1], q[i])]) EXCEPT !.d = t], ax, n - 1)
\* NaT sorts last
DtLess(a, b) == IF a = NaT THEN FALSE ELSE IF b = NaT THEN TRUE ELSE IntCmp(a, b) < 0

(* ----------------------------------- text -------------------------------- *)
PadN(n, w) == LET q == SmallDigits(AbsI(n)) sgn == IF n < 0 THEN <<45>> ELSE <<>> IN
              sgn \o Rep(48, w - Len(q) - Len(sgn)) \o Chars(q)
DateText(n) == LET c == Civil(n) IN PadN(c[1], 4) \o <<45>> \o PadN(c[2], 2) \o <<45>> \o PadN(c[3], 2)
TimeText(v, u) ==              \* value v of a unit below days
  LET dv == IntDivMod(v, PerUnit(uD, u))
      sv == IF u <= 7 THEN <<IntMul(dv[2], PerUnit(u, 7)), Zero>> ELSE IntDivMod(dv[2], PerUnit(7, u))
      sec == sv[1][1]
      frac == Chars(IntDigits(sv[2]))
      w == 3 * (u - 7)
  IN DateText(dv[1][1]) \o <<84>> \o PadN(sec \div 3600, 2)
     \o (IF u >= 6 THEN <<58>> \o PadN((sec \div 60) % 60, 2) ELSE <<>>)
     \o (IF u >= 7 THEN <<58>> \o PadN(sec % 60, 2) ELSE <<>>)
     \o (IF u >= 8 THEN <<46>> \o Rep(48, w - Len(frac)) \o frac ELSE <<>>)
DtText(v, u) ==
  IF v = NaT THEN <<78, 97, 84>>
  ELSE CASE u = uY -> PadN(1970 + v[1], 4)
         [] u = uM -> PadN(1970 + (v[1] \div 12), 4) \o <<45>> \o PadN((v[1] % 12) + 1, 2)
         [] u = uW -> DateText(7 * v[1])
         [] u = uD -> DateText(v[1])
         [] OTHER -> TimeText(v, u)

\* parsing: the fields of ISO 8601 text; BadDate when it is not a date
BadDate == <<>>
RECURSIVE DSplit(_, _)
DSplit(q, c) == LET P == {i \in 1..Len(q) : q[i] = c} IN
  IF P = {} THEN <<q>>
  ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j IN <<SubSeq(q, 1, i - 1)>> \o DSplit(SubSeq(q, i + 1, Len(q)), c)
AllDig(q) == q # <<>> /\ \A i \in 1..Len(q) : Digit(q[i])
RECURSIVE DVal(_)
DVal(q) == IF q = <<>> THEN 0 ELSE 10 * DVal(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)] - 48
TwoD(q, lo, hi) == Len(q) = 2 /\ AllDig(q) /\ DVal(q) >= lo /\ DVal(q) <= hi
DLower(q) == [i \in 1..Len(q) |-> IF q[i] \in 65..90 THEN q[i] + 32 ELSE q[i]]
RECURSIVE DTrim(_)
DTrim(q) == IF q # <<>> /\ Blank(q[1]) THEN DTrim(Tail(q))
            ELSE IF q # <<>> /\ Blank(q[Len(q)]) THEN DTrim(SubSeq(q, 1, Len(q) - 1)) ELSE q
\* <<seconds, nanoseconds>> of a time of day
ParseTime(q0) ==
  LET q == IF q0 # <<>> /\ q0[Len(q0)] = 90 THEN SubSeq(q0, 1, Len(q0) - 1) ELSE q0
      f == TLCEval(DSplit(q, 58))
      sf == IF Len(f) >= 3 THEN TLCEval(DSplit(f[3], 46)) ELSE <<>>
  IN IF Len(f) > 3 \/ ~TwoD(f[1], 0, 23) \/ (Len(f) >= 2 /\ ~TwoD(f[2], 0, 59)) THEN BadDate
     ELSE IF Len(f) = 3 /\ (Len(sf) > 2 \/ ~TwoD(sf[1], 0, 59) \/ (Len(sf) = 2 /\ ~AllDig(sf[2]))) THEN BadDate
     ELSE <<3600 * DVal(f[1]) + (IF Len(f) >= 2 THEN 60 * DVal(f[2]) ELSE 0) + (IF Len(f) = 3 THEN DVal(sf[1]) ELSE 0),
            IF Len(sf) = 2 THEN DVal(SubSeq(sf[2] \o Rep(48, 9), 1, 9)) ELSE 0>>
ParseDT(q0, u) ==              \* <<value>>, or BadDate
  LET q == DTrim(q0) IN
  IF q = <<>> \/ DLower(q) = <<110, 97, 116>> THEN <<NaT>>
  ELSE
  LET sg == IF q[1] = 45 THEN -1 ELSE 1
      r == IF q[1] \in {45, 43} THEN Tail(q) ELSE q
      T == {i \in 1..Len(r) : r[i] \in {84, 32}}
      t == IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : i <= j
      f == TLCEval(DSplit(IF t = 0 THEN r ELSE SubSeq(r, 1, t - 1), 45))
      tm == IF t = 0 THEN <<0, 0>> ELSE TLCEval(ParseTime(SubSeq(r, t + 1, Len(r))))
  IN IF Len(f) > 3 \/ ~AllDig(f[1]) \/ Len(f[1]) > 6 \/ (Len(f) >= 2 /\ ~TwoD(f[2], 1, 12)) \/ (t # 0 /\ Len(f) < 3) \/ tm = BadDate
     THEN BadDate
     ELSE
     LET y == sg * DVal(f[1]) m == IF Len(f) >= 2 THEN DVal(f[2]) ELSE 1 IN
     IF Len(f) = 3 /\ ~TwoD(f[3], 1, MonthLen(y, m)) THEN BadDate
     ELSE LET n == DayNumber(y, m, IF Len(f) = 3 THEN DVal(f[3]) ELSE 1)
              secs == IntAdd(IntMul(I(n), I(86400)), I(tm[1]))
              fine == IF u <= 7 THEN Rescale(secs, 7, u)
                      ELSE IntAdd(IntMul(secs, PerUnit(7, u)), I(tm[2] \div PerUnit(u, 10)[1]))
          IN IF u = uY THEN <<I(y - 1970)>> ELSE IF u = uM THEN <<I((y - 1970) * 12 + m - 1)>>
             ELSE IF InI64(fine) THEN <<fine>> ELSE BadDate

(* ------------------------------ business days ---------------------------- *)
\* week mask text: seven digits, or day names run together or apart
DayNames == <<<<109, 111, 110>>, <<116, 117, 101>>, <<119, 101, 100>>, <<116, 104, 117>>, <<102, 114, 105>>, <<115, 97, 116>>, <<115, 117, 110>>>>
MaskOf(q0) ==                  \* <<>> when it is not a week mask
  LET q == DLower(SelectSeq(q0, LAMBDA c : ~Blank(c)))
      k == Len(q) \div 3
      names == {SubSeq(q, 3 * i - 2, 3 * i) : i \in 1..k}
  IN IF Len(q) = 7 /\ \A i \in 1..7 : q[i] \in {48, 49}
     THEN (IF \A i \in 1..7 : q[i] = 48 THEN <<>> ELSE [i \in 1..7 |-> q[i] - 48])
     ELSE IF q = <<>> \/ Len(q) % 3 # 0 \/ ~(names \subseteq Range(DayNames)) THEN <<>>
     ELSE [i \in 1..7 |-> IF DayNames[i] \in names THEN 1 ELSE 0]
BizDay(n, wm, hol) == wm[Weekday(n) + 1] = 1 /\ n \notin hol
RECURSIVE BizStep(_, _, _, _)
BizStep(n, k, wm, hol) ==
  IF k = 0 THEN n
  ELSE LET s == IF k > 0 THEN 1 ELSE -1 IN
       BizStep(n + s, IF BizDay(n + s, wm, hol) THEN k - s ELSE k, wm, hol)
BizCount(x, y, wm, hol) ==
  IF x <= y THEN Cardinality({n \in x..(y - 1) : BizDay(n, wm, hol)})
  ELSE -Cardinality({n \in (y + 1)..x : BizDay(n, wm, hol)})
DayOK(d) == IsDate(d) /\ UnitOf(d) <= uD
RECURSIVE SortI(_)             \* a set of integers in ascending order
SortI(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SortI(S \ {m})
BizApply(p, A) ==
  LET wm == TLCEval(MaskOf(p.mask))
      parsed == TLCEval([i \in 1..Len(p.hol) |-> ParseDT(p.hol[i], uD)])
      hol == {parsed[i][1][1] : i \in {i \in 1..Len(parsed) : parsed[i] # <<NaT>>}}
      D == [i \in 1..Len(A) |-> IF IsTime(A[i].d) THEN TLCEval(InUnit(A[i], uD)) ELSE A[i]]
      s == IF Len(A) = 2 /\ BcastOK2(A[1].s, A[2].s) THEN Bcast2(A[1].s, A[2].s) ELSE <<>>
      out(r) == IF p.form = "str" THEN OkS(r.v[1]) ELSE Ok1(r)
  IN
  IF wm = <<>> \/ \E i \in 1..Len(parsed) : parsed[i] = BadDate THEN Err
  ELSE CASE p.f = "holidays" ->
         LET q == SortI({n \in hol : wm[Weekday(n) + 1] = 1}) IN Ok1(Arr(<<Len(q)>>, "datetime64[D]", [i \in 1..Len(q) |-> I(q[i])]))
    [] p.f = "mask" -> Ok1(Arr(<<7>>, "py", [i \in 1..7 |-> I(wm[i])]))
    [] p.f = "is" -> IF ~DayOK(A[1].d) THEN Err ELSE
         out(Map(D[1], "bool", LAMBDA v : IF v = NaT THEN Zero ELSE Bool(BizDay(v[1], wm, hol))))
    [] ~BcastOK2(A[1].s, A[2].s) -> Err
    [] p.f = "offset" -> IF ~DayOK(A[1].d) \/ ~IsIntT(A[2].d) THEN Err ELSE
         Ok1(Zip2(D[1], D[2], s, "datetime64[D]", LAMBDA v, k : IF v = NaT THEN NaT ELSE I(BizStep(v[1], k[1], wm, hol))))
    [] p.f = "count" ->
         IF ~DayOK(A[1].d) \/ ~DayOK(A[2].d) \/ (Size(s) > 0 /\ \E i \in 1..2 : NaT \in Range(A[i].v)) THEN Err ELSE
         out(Zip2(D[1], D[2], s, "int64", LAMBDA x, y : I(BizCount(x[1], y[1], wm, hol))))

(* --------------------------------- dispatch ------------------------------ *)
DateOps == {"dtbin", "dtcmp", "dtun", "dtcast", "dtstr", "dtparse", "dtfold", "dtdiff", "dtsort", "dtcat", "biz"}
DateApply(e, A) ==
  LET p == e.p IN
  CASE e.op = "dtbin" -> DtBin(p.f, A[1], A[2])
    [] e.op = "dtcmp" -> DtCmp(p.f, A[1], A[2])
    [] e.op = "dtun" -> DtUn(p.f, A[1])
    [] e.op = "dtcast" -> Ok1([InUnit(A[1], p.u) EXCEPT !.d = (IF IsDate(A[1].d) THEN UnitM ELSE UnitT)[p.u]])
    [] e.op = "dtstr" -> (IF ~IsDate(A[1].d) THEN Err
                          ELSE LET u == IF p.u = 0 THEN UnitOf(A[1].d) ELSE p.u B1 == InUnit(A[1], u) IN
                               Ok1(Arr(<<Len(B1.v)>>, "str", [i \in 1..Len(B1.v) |-> DtText(B1.v[i], u)])))
    [] e.op = "dtparse" -> (LET q == TLCEval([i \in 1..Len(p.q) |-> ParseDT(p.q[i], p.u)]) IN
                            IF \E i \in 1..Len(q) : q[i] = BadDate THEN Err
                            ELSE Ok1(Arr(<<Len(q)>>, UnitM[p.u], [i \in 1..Len(q) |-> q[i][1]])))
    [] e.op = "dtfold" -> Ok1(AlongDrop(A[1], NormAxis(p.axis, Ndim(A[1])), A[1].d, LAMBDA q : DtFold(p.f, q)))
    [] e.op = "dtdiff" -> Ok1(DtDiff(A[1], NormAxis(p.axis, Ndim(A[1])), p.n))
    [] e.op = "dtsort" ->
         (LET F(q) == StableOrder(Len(q), LAMBDA i, j : DtLess(q[i], q[j])) ax == NormAxis(p.axis, Ndim(A[1])) IN
          Ok1(IF p.arg = 1 THEN AlongMap(A[1], ax, A[1].s[ax + 1], "int64", LAMBDA q : LET o == TLCEval(F(q)) IN [i \in 1..Len(q) |-> I(o[i] - 1)])
              ELSE AlongMap(A[1], ax, A[1].s[ax + 1], A[1].d, LAMBDA q : LET o == TLCEval(F(q)) IN [i \in 1..Len(q) |-> q[o[i]]])))
    [] e.op = "dtcat" ->
         (LET u == CommonU(A[1].d, A[2].d) x == InUnit(A[1], u) y == InUnit(A[2], u) IN
          Ok1(Arr(<<Len(x.v) + Len(y.v)>>, (IF IsDate(A[1].d) THEN UnitM ELSE UnitT)[u], x.v \o y.v)))
    [] e.op = "biz" -> BizApply(p, A)
=============================================================================
