------------------------------ MODULE RandGen ------------------------------
(***************************************************************************)
(* Random generators.  rng = [g |-> generators, m |-> streams].            *)
(* A generator is [key, path, call, off, st]: what it was made from, the   *)
(* completed runs of equal calls <<call, items>>, the current run, and     *)
(* (made from an explicit PCG64DXSM state) the exact 128-bit state as      *)
(* bytes, <<>> once it is no longer known.                                 *)
(*                                                                         *)
(* A stream is [k |-> <<key, path, call>>, v |-> items drawn so far]: what *)
(* a generator made from `key` draws by `call` after `path`.  Any two      *)
(* generators at the same place of the same stream draw the same items,    *)
(* whatever other generators do in between and however the items are       *)
(* grouped into calls.  The values themselves are constrained by ranges    *)
(* and, statistically, by the moments and probabilities below.             *)
(***************************************************************************)
EXTENDS Pure

RandOps == {"rnew", "rand", "rshuf", "rmoment", "rcount"}

(* ----------------------------- PCG64DXSM ------------------------------- *)
\* numbers as bytes, low first
PcgMult == <<181, 88, 221, 228, 66, 32, 148, 218>>     \* 0xda942042e4dd58b5
Xor8(x, y) == [i \in 1..Len(x) |-> x[i] ^^ y[i]]
MulAddBytes(x, y, c, n) ==     \* x * y + c modulo 256^n
  LET RECURSIVE col(_, _, _)
      col(k, i, s) == IF i > k \/ i > Len(x) THEN s
                      ELSE col(k, i + 1, IF k - i + 1 <= Len(y) THEN s + x[i] * y[k - i + 1] ELSE s)
      RECURSIVE go(_, _, _)
      go(k, carry, out) == IF k > n THEN out
                           ELSE LET t == col(k, 1, carry) + (IF k <= Len(c) THEN c[k] ELSE 0)
                                IN go(k + 1, t \div 256, Append(out, t % 256))
  IN go(1, 0, <<>>)
ShrBytes(x, k) == [i \in 1..Len(x) |-> IF i + k <= Len(x) THEN x[i + k] ELSE 0]
PcgStep(st, inc) == MulAddBytes(st, PcgMult, inc, 16)
PcgOut(st) ==
  LET lo == [i \in 1..8 |-> IF i = 1 /\ st[1] % 2 = 0 THEN st[1] + 1 ELSE st[i]]
      h0 == SubSeq(st, 9, 16)
      h1 == TLCEval(Xor8(h0, ShrBytes(h0, 4)))
      h2 == TLCEval(MulAddBytes(h1, PcgMult, <<>>, 8))
      h3 == TLCEval(Xor8(h2, ShrBytes(h2, 6)))
  IN MulAddBytes(h3, lo, <<>>, 8)
High53(bs) == FromMag(1, MagDivMod(Mag(OfBytes(bs, 64, FALSE)), MagOfInt(2048))[1])
Low11(bs) == bs[1] + 256 * (bs[2] % 8)
\* the next n outputs and the state after them
RECURSIVE PcgDraw(_, _, _, _)
PcgDraw(st, inc, n, out) ==
  IF n = 0 THEN <<out, st>> ELSE PcgDraw(TLCEval(PcgStep(st, inc)), inc, n - 1, Append(out, TLCEval(PcgOut(st))))

(* ----------------------------- parameters ------------------------------ *)
\* e.p: g generator, f function, x rational (or integer) arguments, w a vector of rationals, c a matrix
\* of rationals, size, none (1: no size, a Python scalar), hi (integers: 1 if two bounds), rep (choice)
NonNeg(v) == ~Lt(v, Zero)
Pos(v) == Lt(Zero, v)
Unit(v) == NonNeg(v) /\ Le(v, One)
SumQ(q) == Fold(LAMBDA x, y : FAdd(x, y), Zero, q)
PopSize(e, A) == IF Len(e.a) = 1 THEN Len(A[1].v) ELSE e.p.x[1][1]
Items(e) == IF e.p.none = 1 THEN 1 ELSE Size(e.p.size)
RandPre(e, A) ==
  LET x == e.p.x f == e.p.f IN
  CASE f \in {"random_raw", "random", "uniform", "standard_normal", "standard_exponential", "standard_cauchy"} -> TRUE
    [] f = "integers" -> IF e.p.hi = 1 THEN Lt(x[1], x[2]) ELSE Pos(x[1])
    [] f \in {"normal", "laplace", "logistic", "lognormal", "vonmises"} -> NonNeg(x[2])
    [] f \in {"exponential", "rayleigh", "standard_gamma", "weibull", "poisson"} -> NonNeg(x[1])
    [] f = "gamma" -> NonNeg(x[1]) /\ NonNeg(x[2])
    [] f \in {"beta", "wald"} -> Pos(x[1]) /\ Pos(x[2])
    [] f = "binomial" -> NonNeg(x[1]) /\ Unit(x[2])
    [] f \in {"chisquare", "standard_t", "pareto"} -> Pos(x[1])
    [] f = "geometric" -> Pos(x[1]) /\ Unit(x[1])
    [] f = "negative_binomial" -> Pos(x[1]) /\ Pos(x[2]) /\ Unit(x[2])
    [] f = "hypergeometric" -> NonNeg(x[1]) /\ NonNeg(x[2]) /\ NonNeg(x[3]) /\ Le(x[3], FAdd(x[1], x[2]))
    [] f = "multinomial" -> /\ NonNeg(x[1]) /\ Len(e.p.w) > 0
                            /\ \A i \in 1..Len(e.p.w) : Unit(e.p.w[i])
                            /\ Le(SumQ(SubSeq(e.p.w, 1, Len(e.p.w) - 1)), One)
    [] f = "zipf" -> Lt(One, x[1])
    [] f = "triangular" -> Le(x[1], x[2]) /\ Le(x[2], x[3]) /\ Lt(x[1], x[3])
    [] f = "dirichlet" -> \A i \in 1..Len(e.p.w) : Pos(e.p.w[i])
    [] f = "multivariate_normal" -> /\ Len(e.p.c) = Len(e.p.w)
                                    /\ \A i \in 1..Len(e.p.c) : Len(e.p.c[i]) = Len(e.p.w) /\ NonNeg(e.p.c[i][i])
    [] f = "permutation" -> IF Len(e.a) = 1 THEN A[1].s # <<>> ELSE NonNeg(x[1])
    [] f = "shuffle" -> A[1].s # <<>>
    [] f = "choice" -> PopSize(e, A) > 0 /\ (e.p.rep = 1 \/ Items(e) <= PopSize(e, A))

(* ----------------------------- admissible results ---------------------- *)
Q16(v) == (16 * v[1]) \div v[2]         \* floor(16 v)
\* bounds of floor(16 x): <<lower or "", upper or "">>
Anywhere == <<-536870911, 536870911>>
FloatBounds(e) ==
  LET x == e.p.x f == e.p.f
      up == 536870911
      both(v) == <<Q16(v), Q16(v)>>
  IN
  CASE f = "uniform" -> IF x[1] = x[2] THEN both(x[1]) ELSE <<Q16(x[1]), Q16(x[2]) - (IF (16 * x[2][1]) % x[2][2] = 0 THEN 1 ELSE 0)>>
    [] f = "normal" -> IF x[2] = Zero THEN both(x[1]) ELSE Anywhere
    [] f \in {"laplace", "logistic"} -> IF x[2] = Zero THEN both(x[1]) ELSE Anywhere
    [] f \in {"standard_normal", "standard_t", "standard_cauchy"} -> Anywhere
    [] f \in {"exponential", "rayleigh", "standard_gamma", "weibull"} -> IF x[1] = Zero THEN <<0, 0>> ELSE <<0, up>>
    [] f = "gamma" -> IF x[1] = Zero \/ x[2] = Zero THEN <<0, 0>> ELSE <<0, up>>
    [] f \in {"chisquare", "standard_exponential", "pareto", "wald"} -> <<0, up>>
    [] f = "lognormal" -> IF x[2] = Zero /\ x[1] = Zero THEN <<16, 16>> ELSE <<0, up>>
    [] f = "beta" -> <<0, 16>>
    [] f = "triangular" -> <<Q16(x[1]), Q16(x[3])>>
    [] f = "vonmises" -> <<-51, 50>>
FloatFns == {"uniform", "normal", "laplace", "logistic", "standard_normal", "standard_t", "standard_cauchy", "exponential",
   "rayleigh", "standard_gamma", "weibull", "gamma", "chisquare", "standard_exponential", "pareto", "wald", "lognormal",
   "beta", "triangular", "vonmises"}
IntBounds(e) ==                \* inclusive
  LET x == e.p.x f == e.p.f top == IntSub(FromMag(1, MagPow2(63)), One) IN
  CASE f = "integers" -> IF e.p.hi = 1 THEN <<x[1], IntSub(x[2], One)>> ELSE <<Zero, IntSub(x[1], One)>>
    [] f = "poisson" -> IF x[1] = Zero THEN <<Zero, Zero>> ELSE <<Zero, top>>
    [] f = "binomial" -> IF x[2] = Zero THEN <<Zero, Zero>> ELSE IF x[2] = One THEN <<x[1], x[1]>> ELSE <<Zero, x[1]>>
    [] f = "geometric" -> IF x[1] = One THEN <<Zero, Zero>> ELSE <<Zero, top>>
    [] f = "negative_binomial" -> IF x[2] = One THEN <<Zero, Zero>> ELSE <<Zero, top>>
    [] f = "hypergeometric" ->
         LET lo == FSub(x[3], x[2]) IN
         <<IF Lt(lo, Zero) THEN Zero ELSE lo, IF Lt(x[3], x[1]) THEN x[3] ELSE x[1]>>
    [] f = "zipf" -> <<One, top>>
IntFns == {"integers", "poisson", "binomial", "geometric", "negative_binomial", "hypergeometric", "zipf"}

Shaped(e, X, d) == IF e.p.none = 1 THEN X.s = <<>> ELSE X.s = e.p.size /\ X.d = d
RowsShape(e, k) == <<IF e.p.none = 1 THEN 1 ELSE e.p.size[1], k>>
\* each element of q is one of pop, with at most its multiplicity
SubBag(q, pop) == \A i \in 1..Len(q) : Cardinality({j \in 1..Len(q) : q[j] = q[i]}) <= Cardinality({j \in 1..Len(pop) : pop[j] = q[i]})
FirstRows(X) == LET k == Len(X.v) \div MaxI(X.s[1], 1) IN [i \in 1..X.s[1] |-> SubSeq(X.v, k * (i - 1) + 1, k * i)]
Rearranged(X, Y) == /\ X.s = Y.s /\ X.d = Y.d
                    /\ LET a == TLCEval(FirstRows(X)) b == TLCEval(FirstRows(Y)) IN SubBag(b, a) /\ Len(a) = Len(b)
RandRange(e, A, R) ==
  LET f == e.p.f x == e.p.x IN
  CASE f = "random_raw" -> R[1].s = <<2>>
    [] f = "random" -> /\ Shaped(e, R[1], "int64")
                       /\ \A i \in 1..Len(R[1].v) : NonNeg(R[1].v[i]) /\ Lt(R[1].v[i], FromMag(1, MagPow2(53)))
    [] f \in FloatFns -> /\ Len(R) = 2 /\ Shaped(e, R[1], "int64") /\ Shaped(e, R[2], "int64")
                         /\ LET b == FloatBounds(e) IN \A i \in 1..Len(R[2].v) : R[2].v[i][1] >= b[1] /\ R[2].v[i][1] <= b[2]
    [] f \in IntFns -> /\ Shaped(e, R[1], "int64")
                       /\ LET b == TLCEval(IntBounds(e)) IN \A i \in 1..Len(R[1].v) : Le(b[1], R[1].v[i]) /\ Le(R[1].v[i], b[2])
    [] f = "multinomial" ->
         /\ R[1].s = RowsShape(e, Len(e.p.w)) /\ R[1].d = "int64"
         /\ \A i \in 1..R[1].s[1] : LET r == SubSeq(R[1].v, Len(e.p.w) * (i - 1) + 1, Len(e.p.w) * i) IN
              /\ \A j \in 1..Len(r) : NonNeg(r[j]) /\ (j < Len(r) /\ e.p.w[j] = Zero => r[j] = Zero)
              /\ SumQ(r) = x[1]
    [] f = "dirichlet" ->      \* R[2]: floor(2^20 x)
         /\ Len(R) = 2 /\ R[1].s = RowsShape(e, Len(e.p.w)) /\ R[1].d = "int64" /\ R[2].s = R[1].s
         /\ \A i \in 1..R[1].s[1] : LET r == SubSeq(R[2].v, Len(e.p.w) * (i - 1) + 1, Len(e.p.w) * i) IN
              /\ \A j \in 1..Len(r) : r[j][1] >= 0
              /\ LET t == SumQ(r)[1] IN t <= 1048576 + 1 /\ t >= 1048576 - Len(r) - 1
    [] f = "multivariate_normal" ->     \* a coordinate of zero variance is its mean
         /\ Len(R) = 2 /\ R[1].s = RowsShape(e, Len(e.p.w)) /\ R[1].d = "int64" /\ R[2].s = R[1].s
         /\ \A k \in 1..Len(R[2].v) : LET j == ((k - 1) % Len(e.p.w)) + 1 IN
              e.p.c[j][j] = Zero => R[2].v[k][1] = Q16(e.p.w[j])
    [] f = "permutation" ->
         IF Len(e.a) = 1 THEN Rearranged(A[1], R[1])
         ELSE LET n == x[1][1] IN R[1].s = <<n>> /\ R[1].d = "int64" /\ SubBag(R[1].v, [i \in 1..n |-> I(i - 1)])
    [] f = "shuffle" -> Rearranged(A[1], R[1])
    [] f = "choice" ->
         LET pop == IF Len(e.a) = 1 THEN A[1].v ELSE [i \in 1..x[1][1] |-> I(i - 1)]
             d == IF Len(e.a) = 1 THEN A[1].d ELSE "int64"
         IN /\ Shaped(e, R[1], d)
            /\ \A i \in 1..Len(R[1].v) : \E j \in 1..Len(pop) : R[1].v[i] = pop[j]
            /\ (e.p.rep = 0 => SubBag(R[1].v, pop))

(* ------------------------------- streams ------------------------------- *)
\* items of a result, in the order drawn, and the call they are drawn by
RowItems(X) == [i \in 1..X.s[1] |-> LET k == Len(X.v) \div X.s[1] IN SubSeq(X.v, k * (i - 1) + 1, k * i)]
RandItems(e, A, R) ==
  CASE e.p.f = "random_raw" -> <<R[1].v[1]>>
    [] e.p.f \in {"multinomial", "dirichlet", "multivariate_normal"} -> IF R[1].s[1] = 0 THEN <<>> ELSE RowItems(R[1])
    [] e.p.f \in {"permutation", "shuffle"} -> <<R[1].v>>
    [] e.p.f = "choice" /\ e.p.rep = 0 -> <<R[1].v>>
    [] OTHER -> R[1].v
RandCall(e, A) ==
  LET f == e.p.f IN
  CASE f \in {"random_raw", "random"} -> <<"u53">>
    [] f = "uniform" -> <<f, e.p.x>>
    \* permuting an array, shuffling it in place and permuting a range are the same draw
    [] f = "permutation" /\ Len(e.a) = 0 -> LET n == e.p.x[1][1] IN <<"shuffle", <<n>>, [i \in 1..n |-> I(i - 1)]>>
    [] f \in {"permutation", "shuffle"} -> <<"shuffle", A[1].s, A[1].v>>
    [] f = "choice" /\ Len(e.a) = 0 -> <<f, e.p.rep, IF e.p.rep = 1 THEN 0 ELSE Items(e), [i \in 1..e.p.x[1][1] |-> I(i - 1)]>>
    [] f = "choice" -> <<f, e.p.rep, IF e.p.rep = 1 THEN 0 ELSE Items(e), A[1].v>>
    [] f = "integers" -> <<f, IntBounds(e)>>
    [] OTHER -> <<f, e.p.x, e.p.w, e.p.c>>
NewGen(e) == [key |-> <<e.p.kind, e.p.seed>>, path |-> <<>>, call |-> <<>>, off |-> 0,
              st |-> IF e.p.kind = "pcg" THEN e.p.seed ELSE <<>>, inc |-> e.p.inc]
\* the generator at the start of (or within) a run of `call`
AtCall(g, call) == IF g.call = call THEN g
                   ELSE [g EXCEPT !.path = IF g.off = 0 THEN g.path ELSE Append(g.path, <<g.call, g.off>>), !.call = call, !.off = 0]
StreamKey(g) == <<g.key, g.inc, g.path, g.call>>
StreamIdx(m, k) == SelectIdx(m, LAMBDA i : m[i].k = k)
Agrees(m, g, items) ==
  LET q == StreamIdx(m, StreamKey(g)) IN
  q = <<>> \/ LET v == m[q[1]].v IN \A i \in 1..Len(items) : g.off + i <= Len(v) => v[g.off + i] = items[i]
Extend(m, g, items) ==
  LET q == StreamIdx(m, StreamKey(g)) IN
  IF q = <<>> THEN (IF g.off = 0 THEN Append(m, [k |-> StreamKey(g), v |-> items]) ELSE m)
  ELSE LET v == m[q[1]].v extra == g.off + Len(items) - Len(v) IN
       IF extra <= 0 \/ Len(v) < g.off THEN m
       ELSE [m EXCEPT ![q[1]].v = v \o SubSeq(items, Len(items) - extra + 1, Len(items))]
ExactFns == {"random", "random_raw"}
ExactOK(e, R, g, items) ==
  IF g.st = <<>> \/ e.p.f \notin ExactFns THEN TRUE
  ELSE LET d == TLCEval(PcgDraw(g.st, g.inc, Len(items), <<>>)[1]) IN
       /\ \A i \in 1..Len(items) : items[i] = High53(d[i])
       /\ (e.p.f = "random_raw" => R[1].v[2] = I(Low11(d[1])))

(* --------------------------- moments, probabilities -------------------- *)
\* mean and variance (an upper bound for irrational ones) as rationals, and whether the
\* sample variance is checked as well
QAdd(x, y) == FAdd(x, y)
QMul(x, y) == FMul(x, y)
QDiv(x, y) == FMul(x, FInv(y))
Sq(x) == FMul(x, x)
Moments(e) ==
  LET x == e.p.x f == e.p.f one(v) == FSub(One, v) IN
  CASE f = "random" -> <<<<1, 2>>, <<1, 12>>, TRUE>>
    [] f = "uniform" -> <<QMul(<<1, 2>>, QAdd(x[1], x[2])), QMul(<<1, 12>>, Sq(FSub(x[2], x[1]))), TRUE>>
    [] f = "normal" -> <<x[1], Sq(x[2]), TRUE>>
    [] f = "standard_normal" -> <<Zero, One, TRUE>>
    [] f = "standard_exponential" -> <<One, One, TRUE>>
    [] f = "exponential" -> <<x[1], Sq(x[1]), TRUE>>
    [] f = "gamma" -> <<QMul(x[1], x[2]), QMul(x[1], Sq(x[2])), Le(One, x[1])>>
    [] f = "standard_gamma" -> <<x[1], x[1], Le(One, x[1])>>
    [] f = "beta" -> LET s == QAdd(x[1], x[2]) IN
                     <<QDiv(x[1], s), QDiv(QMul(x[1], x[2]), QMul(Sq(s), QAdd(s, One))), TRUE>>
    [] f = "poisson" -> <<x[1], x[1], Le(One, x[1])>>
    [] f = "binomial" -> <<QMul(x[1], x[2]), QMul(QMul(x[1], x[2]), one(x[2])), Le(<<1, 2>>, QMul(QMul(x[1], x[2]), one(x[2])))>>
    [] f = "chisquare" -> <<x[1], QMul(I(2), x[1]), Le(I(2), x[1])>>
    [] f = "laplace" -> <<x[1], QMul(I(2), Sq(x[2])), TRUE>>
    [] f = "logistic" -> <<x[1], QMul(<<329, 100>>, Sq(x[2])), TRUE>>
    [] f = "rayleigh" -> <<QMul(<<12533, 10000>>, x[1]), QMul(<<4292, 10000>>, Sq(x[1])), TRUE>>
    [] f = "geometric" -> <<QDiv(one(x[1]), x[1]), QDiv(one(x[1]), Sq(x[1])), FALSE>>
    [] f = "negative_binomial" -> <<QDiv(QMul(x[1], one(x[2])), x[2]), QDiv(QMul(x[1], one(x[2])), Sq(x[2])), FALSE>>
    [] f = "hypergeometric" ->
         LET t == QAdd(x[1], x[2]) p == QDiv(x[1], t) IN
         <<QMul(x[3], p), IF t = One THEN Zero ELSE
              QMul(QMul(x[3], QMul(p, one(p))), QDiv(FSub(t, x[3]), FSub(t, One))), FALSE>>
    [] f = "triangular" -> <<QMul(<<1, 3>>, QAdd(x[1], QAdd(x[2], x[3]))),
                             QMul(<<1, 18>>, FSub(QAdd(Sq(x[1]), QAdd(Sq(x[2]), Sq(x[3]))),
                                                  QAdd(QMul(x[1], x[2]), QAdd(QMul(x[1], x[3]), QMul(x[2], x[3]))))), TRUE>>
    [] f = "wald" -> <<x[1], QDiv(QMul(x[1], Sq(x[1])), x[2]), FALSE>>
    [] f = "standard_t" -> <<Zero, QDiv(x[1], FSub(x[1], I(2))), FALSE>>          \* df > 4
    [] f = "pareto" -> <<FInv(FSub(x[1], One)), QDiv(x[1], QMul(Sq(FSub(x[1], One)), FSub(x[1], I(2)))), FALSE>>
    [] f = "weibull" -> IF x[1] = One THEN <<One, One, TRUE>> ELSE <<<<8862, 10000>>, <<2147, 10000>>, TRUE>>   \* a = 1, 2
    [] f = "lognormal" -> <<<<11331, 10000>>, <<3647, 10000>>, FALSE>>             \* (0, 1/2)
    [] f = "vonmises" -> IF x[2] = Zero THEN <<Zero, <<329, 100>>, TRUE>> ELSE <<x[1], <<2, 1>>, FALSE>>
    [] f = "zipf" -> <<<<11106, 10000>>, <<2863, 10000>>, FALSE>>                  \* a = 4
    [] f = "integers" -> LET n == FSub(x[2], x[1]) IN
                         <<QMul(<<1, 2>>, FSub(QAdd(x[1], x[2]), One)), QMul(<<1, 12>>, FSub(Sq(n), One)), TRUE>>
    [] f = "dirichlet" ->      \* the column e.p.col
         LET t == SumQ(e.p.w) v == e.p.w[e.p.col + 1] IN
         <<QDiv(v, t), QDiv(QMul(v, FSub(t, v)), QMul(Sq(t), QAdd(t, One))), FALSE>>
    [] f = "multivariate_normal" -> LET k == e.p.col + 1 IN <<e.p.w[k], e.p.c[k][k], TRUE>>
    [] f = "covariance" ->     \* the mean of (x_i - mu_i) (x_j - mu_j), variance c_ii c_jj + c_ij^2
         LET i == e.p.col + 1 j == e.p.col2 + 1 IN
         <<e.p.c[i][j], QAdd(QMul(e.p.c[i][i], e.p.c[j][j]), Sq(e.p.c[i][j])), FALSE>>
\* R[1] = <<round(1000 mean), round(1000 variance)>> of 4096 draws: six standard errors
MomentOK(e, R) ==
  LET m == Moments(e)
      dev == AbsI((R[1].v[1][1] * m[1][2] - 1000 * m[1][1]) \div m[1][2])
      v1000 == (1000 * m[2][1]) \div m[2][2] + 1
      slack == MaxI(dev - 2, 0)
  IN /\ R[1].s = <<2>> /\ Len(R[1].v[1]) = 2 /\ R[1].v[1][2] = 1
     /\ slack < 20000 /\ slack * slack <= 9 * v1000 + 9
     /\ (m[3] => LET s == R[1].v[2][1] IN 10 * s >= 6 * v1000 - 40 /\ 10 * s <= 14 * v1000 + 40)

Fact(n) == IF n <= 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n = 3 THEN 6 ELSE 24
Choose(n, k) == IF k < 0 \/ k > n THEN 0
                ELSE LET RECURSIVE go(_, _) go(i, c) == IF i > k THEN c ELSE go(i + 1, (c * (n - i + 1)) \div i) IN go(1, 1)
RECURSIVE RPow(_, _)
RPow(b, k) == IF k = 0 THEN 1 ELSE b * RPow(b, k - 1)
\* probabilities of the outcomes 0, 1, .. of e.p.f as <<numerator, denominator>>
Outcomes(e) ==
  LET f == e.p.f x == e.p.x n == x[1][1] IN
  CASE f \in {"shuffle", "permutation", "permutation_array"} -> [i \in 1..Fact(n) |-> <<1, Fact(n)>>]
    [] f \in {"integers", "choice"} -> [i \in 1..n |-> <<1, n>>]
    [] f = "pair" -> [i \in 1..(n * n) |-> IF (i - 1) \div n = (i - 1) % n THEN <<0, 1>> ELSE <<1, n * (n - 1)>>]
    [] f = "binomial" -> LET a == x[2][1] b == x[2][2] IN
                         [i \in 1..(n + 1) |-> <<Choose(n, i - 1) * RPow(a, i - 1) * RPow(b - a, n - i + 1), RPow(b, n)>>]
    [] f = "hypergeometric" ->
         LET g == n b == x[2][1] s == x[3][1] IN
         [i \in 1..(s + 1) |-> <<Choose(g, i - 1) * Choose(b, s - i + 1), Choose(g + b, s)>>]
    [] f = "geometric" -> [i \in 1..5 |-> <<1, Pow2(i)>>]              \* p = 1/2
    [] f = "negative_binomial" -> [i \in 1..5 |-> <<i, Pow2(i + 1)>>]  \* n = 2, p = 1/2
    [] f = "multinomial" -> e.p.w                                      \* column totals
CountOK(e, R) ==               \* R[1] = counts in e.p.trials trials: six standard errors
  LET q == Outcomes(e) T == e.p.trials IN
  /\ Len(R[1].v) = Len(q)
  /\ \A i \in 1..Len(q) :
       LET c == R[1].v[i][1] n == q[i][1] d == q[i][2] dev == AbsI(c * d - T * n) IN
       IF n = 0 \/ n = d THEN dev = 0 ELSE dev < 46000 /\ dev * dev <= 36 * T * n * (d - n)

(* ------------------------------ transitions ---------------------------- *)
\* whether e, with operands A and results R, is a draw rng allows, and rng after it
RandCallOf(e, A) == IF e.op \in {"rmoment", "rcount"} THEN <<e.op, e.p.f, e.p.x, e.p.w, e.p.c>> ELSE RandCall(e, A)
RandAllowed(e, A, R, rng) ==
  IF e.op = "rnew" THEN R = <<>>
  ELSE IF e.op = "rmoment" THEN MomentOK(e, R)
  ELSE IF e.op = "rcount" THEN CountOK(e, R)
  ELSE /\ RandRange(e, A, R)
       /\ LET g == AtCall(rng.g[e.p.g + 1], RandCallOf(e, A)) items == TLCEval(RandItems(e, A, R)) IN
          Agrees(rng.m, g, items) /\ ExactOK(e, R, g, items)
RandNext(e, A, R, rng) ==
  IF e.op = "rnew" THEN [rng EXCEPT !.g = IF e.p.g < Len(rng.g) THEN [rng.g EXCEPT ![e.p.g + 1] = NewGen(e)]
                                          ELSE Append(rng.g, NewGen(e))]
  ELSE LET g == AtCall(rng.g[e.p.g + 1], RandCallOf(e, A))
           items == IF e.op \in {"rmoment", "rcount"} THEN <<<<>>>> ELSE TLCEval(RandItems(e, A, R))
           n == Len(items)
           st == IF g.st = <<>> \/ n = 0 THEN g.st
                 ELSE IF e.op = "rand" /\ e.p.f \in ExactFns THEN PcgDraw(g.st, g.inc, n, <<>>)[2] ELSE <<>>
       IN IF n = 0 THEN rng
          ELSE [g |-> [rng.g EXCEPT ![e.p.g + 1] = [g EXCEPT !.off = g.off + n, !.st = st]],
                m |-> Extend(rng.m, g, items)]
=============================================================================
