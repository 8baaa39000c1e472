------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Matrix factorisations, linear systems and discrete Fourier transforms,  *)
(* specified by the equations their results satisfy.                       *)
(*                                                                         *)
(* Operands have small integer entries.  Results are observed in one of    *)
(* two ways.  Rational results are exact: the call carries a common        *)
(* denominator (a witness) and the equation is checked in integers.        *)
(* Irrational results are observed as fixed-point integers of scale FK and  *)
(* the equation is checked up to a tolerance far below any result that     *)
(* satisfies it for a different operand.                                   *)
(***************************************************************************)
EXTENDS Grid

FK == 8192
\* matrices of machine integers, row major
Mx(m, n, q) == [m |-> m, n |-> n, q |-> q]
MAt(x, i, j) == x.q[(i - 1) * x.n + j]
IntMx(a) == IF Ndim(a) = 1 THEN Mx(a.s[1], 1, TLCEval([i \in 1..Len(a.v) |-> a.v[i][1]]))
            ELSE Mx(a.s[1], a.s[2], TLCEval([i \in 1..Len(a.v) |-> a.v[i][1]]))
SmallInts(a, b) == \A i \in 1..Len(a.v) : Len(a.v[i]) = 2 /\ a.v[i][2] = 1 /\ AbsI(a.v[i][1]) <= b
\* a rational array times its common denominator
Scalable(a, den) == \A i \in 1..Len(a.v) :
   Len(a.v[i]) = 2 /\ a.v[i][2] > 0 /\ a.v[i][2] <= den /\ den % a.v[i][2] = 0 /\ AbsI(a.v[i][1]) \div a.v[i][2] <= 2097152 \div den
ScaledMx(a, den) ==
  LET q == TLCEval([i \in 1..Len(a.v) |-> a.v[i][1] * (den \div a.v[i][2])]) IN
  IF Ndim(a) = 1 THEN Mx(a.s[1], 1, q) ELSE Mx(a.s[1], a.s[2], q)
RECURSIVE DotM(_, _, _, _, _, _)
DotM(x, y, i, j, k, acc) == IF k > x.n THEN acc ELSE DotM(x, y, i, j, k + 1, acc + MAt(x, i, k) * MAt(y, k, j))
RECURSIVE DotK(_, _, _, _, _, _)
DotK(x, y, i, j, k, acc) == IF k > x.n THEN acc ELSE DotK(x, y, i, j, k + 1, acc + ((MAt(x, i, k) * MAt(y, k, j)) \div FK))
Prd(x, y, D(_, _, _, _, _, _)) == Mx(x.m, y.n, TLCEval([p \in 1..(x.m * y.n) |-> D(x, y, ((p - 1) \div y.n) + 1, ((p - 1) % y.n) + 1, 1, 0)]))
MulI(x, y) == Prd(x, y, DotM)                 \* integer product
MulK(x, y) == Prd(x, y, DotK)                 \* product of fixed-point matrices
TrM(x) == Mx(x.n, x.m, TLCEval([p \in 1..(x.m * x.n) |-> MAt(x, ((p - 1) % x.m) + 1, ((p - 1) \div x.m) + 1)]))
ScaleM(x, c) == Mx(x.m, x.n, TLCEval([p \in 1..Len(x.q) |-> x.q[p] * c]))
IdM(n, c) == Mx(n, n, TLCEval([p \in 1..(n * n) |-> IF (p - 1) \div n = (p - 1) % n THEN c ELSE 0]))
\* x with column j multiplied by w[j] (fixed point)
ColsBy(x, w) == Mx(x.m, x.n, TLCEval([p \in 1..Len(x.q) |-> (x.q[p] * w[((p - 1) % x.n) + 1]) \div FK]))
Near(x, y, t) == x.m = y.m /\ x.n = y.n /\ \A p \in 1..Len(x.q) : AbsI(x.q[p] - y.q[p]) <= t
Within(x, b) == \A p \in 1..Len(x.q) : AbsI(x.q[p]) <= b
Tol == 40
\* columns of x are orthonormal
Ortho(x) == Within(x, FK + Tol) /\ Near(MulK(TrM(x), x), IdM(x.n, FK), Tol)
\* the symmetric matrix whose lower triangle is that of x
LowSym(x) == Mx(x.m, x.n, TLCEval([p \in 1..Len(x.q) |->
               LET i == ((p - 1) \div x.n) + 1 j == ((p - 1) % x.n) + 1 IN IF j <= i THEN MAt(x, i, j) ELSE MAt(x, j, i)]))
LowerTri(x, t) == \A i \in 1..x.m, j \in 1..x.n : j > i => AbsI(MAt(x, i, j)) <= t
UpperTri(x, t) == \A i \in 1..x.m, j \in 1..x.n : j < i => AbsI(MAt(x, i, j)) <= t
TraceI(x) == SumI([i \in 1..MinI(x.m, x.n) |-> MAt(x, i, i)])

(* ---- exact determinant and rank: fraction-free elimination on values ---- *)
\* rows: sequence of sequences of integer values
RECURSIVE Bareiss(_, _, _, _)
Bareiss(rows, prev, sign, k) ==      \* <<determinant, rank of the leading columns>>; square
  LET n == Len(rows) IN
  IF k > n THEN IF sign > 0 THEN prev ELSE IntNeg(prev)
  ELSE LET piv == {i \in k..n : rows[i][k] # Zero} IN
       IF piv = {} THEN Zero
       ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                r0 == TLCEval([i \in 1..n |-> IF i = k THEN rows[p] ELSE IF i = p THEN rows[k] ELSE rows[i]])
                r1 == TLCEval([i \in 1..n |-> IF i <= k THEN r0[i] ELSE TLCEval([j \in 1..n |->
                        IF j <= k THEN Zero
                        ELSE IntDivMod(IntSub(IntMul(r0[i][j], r0[k][k]), IntMul(r0[i][k], r0[k][j])), prev)[1]])])
            IN Bareiss(r1, r0[k][k], IF p = k THEN sign ELSE -sign, k + 1)
RowsOf(x) == TLCEval([i \in 1..x.m |-> TLCEval([j \in 1..x.n |-> Canon(MAt(x, i, j))])])
DetM(x) == IF x.m = 0 THEN One ELSE Bareiss(RowsOf(x), One, 1, 1)
LeadM(x, k) == Mx(k, k, TLCEval([p \in 1..(k * k) |-> MAt(x, ((p - 1) \div k) + 1, ((p - 1) % k) + 1)]))
PosDef(x) == \A k \in 1..x.m : Sgn(DetM(LeadM(x, k))) > 0
\* rank by elimination with row reduction of integer rows (divided by their gcd)
RowGcd(r) == Fold(LAMBDA g, v : GcdI(AbsI(v), g), 0, r)
Reduced(r) == LET g == RowGcd(r) IN IF g = 0 THEN r ELSE TLCEval([j \in 1..Len(r) |-> r[j] \div g])
RECURSIVE RankR(_, _, _)
RankR(rows, c, n) ==
  IF rows = <<>> \/ c > n THEN 0
  ELSE LET piv == {i \in 1..Len(rows) : rows[i][c] # 0} IN
       IF piv = {} THEN RankR(rows, c + 1, n)
       ELSE LET p == CHOOSE i \in piv : \A j \in piv : AbsI(rows[i][c]) < AbsI(rows[j][c]) \/ (AbsI(rows[i][c]) = AbsI(rows[j][c]) /\ i <= j)
                rest == TLCEval([i \in 1..(Len(rows) - 1) |-> LET r == rows[IF i < p THEN i ELSE i + 1] IN
                          Reduced(TLCEval([j \in 1..n |-> r[j] * rows[p][c] - rows[p][j] * r[c]]))])
            IN 1 + RankR(rest, c + 1, n)
RankM(x) == RankR(TLCEval([i \in 1..x.m |-> Reduced(TLCEval([j \in 1..x.n |-> MAt(x, i, j)]))]), 1, x.n)

PermA(a, perm) ==
  LET os == TLCEval([i \in 1..Ndim(a) |-> a.s[perm[i] + 1]])
      cs == TLCEval(CStrides(a.s)) co == TLCEval(CStrides(os))
  IN Arr(os, a.d, [k \in 1..Len(a.v) |-> LET o == Unravel(k - 1, os, co) IN
                     a.v[1 + SumI([i \in 1..Len(os) |-> o[i] * cs[perm[i] + 1]])]])

(* ----------------------------- preconditions ---------------------------- *)
Square(a) == Ndim(a) = 2 /\ a.s[1] = a.s[2]
NeedSquare == {"inv", "det", "slogdet", "eigh", "eigvalsh", "eig", "eigvals", "cholesky", "matrix_power", "solve"}
LaPre(X, p) ==
  LET a == X[1] IN
  CASE p.f \in {"tensorsolve", "tensorinv"} -> p.ok = 1
    [] p.f = "vector_norm" -> TRUE
    [] p.f = "norm" -> Ndim(a) = 1 \/ (Ndim(a) = 2 /\ p.o \in {"", "fro", "1", "inf", "-1", "-inf"})
    [] p.f = "matrix_norm" -> Ndim(a) = 2
    [] OTHER ->
       /\ Ndim(a) = 2
       /\ p.f \in NeedSquare => Square(a)
       /\ p.f \in {"inv", "solve"} => DetM(IntMx(a)) # Zero
       /\ p.f = "matrix_power" => (p.m < 0 => DetM(IntMx(a)) # Zero)
       /\ p.f = "cholesky" => PosDef(LowSym(IntMx(a)))
       /\ p.f \in {"solve", "lstsq"} => Ndim(X[2]) \in {1, 2} /\ X[2].s[1] = a.s[1]

(* ------------------------------- relations ------------------------------ *)
Dts(R) == R[1].v                                \* dtype codes of the results (8 float64, 16 complex128)
AllF64(R) == \A i \in 1..Len(Dts(R)) : Dts(R)[i] = I(8)
Shape2(a, m, n) == a.s = <<m, n>>
Fx(a) == IntMx(a)
FxOK(a, b) == SmallInts(a, b)
SvdOK(a, U, S, V) ==
  LET m == a.s[1] n == a.s[2] k == MinI(m, n) IN
  /\ Shape2(U, m, k) /\ S.s = <<k>> /\ Shape2(V, k, n)
  /\ FxOK(U, FK + Tol) /\ FxOK(V, FK + Tol) /\ FxOK(S, 26 * FK)
  /\ \A i \in 1..k : S.v[i][1] >= -2 /\ (i > 1 => S.v[i][1] <= S.v[i - 1][1] + 2)
  /\ Ortho(Fx(U)) /\ Ortho(TrM(Fx(V)))
  /\ Near(MulK(ColsBy(Fx(U), TLCEval([i \in 1..k |-> S.v[i][1]])), Fx(V)), ScaleM(IntMx(a), FK), 3 * Tol)
EighOK(a, W, V) ==
  LET n == a.s[1] IN
  /\ W.s = <<n>> /\ Shape2(V, n, n) /\ FxOK(W, 26 * FK) /\ FxOK(V, FK + Tol)
  /\ \A i \in 2..n : W.v[i - 1][1] <= W.v[i][1] + 2
  /\ Ortho(Fx(V))
  /\ Near(MulI(LowSym(IntMx(a)), Fx(V)), ColsBy(Fx(V), TLCEval([i \in 1..n |-> W.v[i][1]])), 3 * Tol)
SameFx(x, y, t) == x.s = y.s /\ \A i \in 1..Len(x.v) : AbsI(x.v[i][1] - y.v[i][1]) <= t
\* complex fixed point: arrays with a trailing axis of length 2
CRe(a, i) == a.v[2 * i - 1][1]
CIm(a, i) == a.v[2 * i][1]
EigOK(a, W, V) ==                              \* A v = w v; V's columns have unit length
  LET n == a.s[1] x == IntMx(a) IN
  /\ W.s = <<n, 2>> /\ V.s = <<n, n, 2>> /\ FxOK(W, 16 * FK) /\ FxOK(V, FK + Tol)
  /\ \A j \in 1..n :
       /\ LET q == SumI([i \in 1..n |-> LET e == (i - 1) * n + j IN (CRe(V, e) * CRe(V, e)) \div FK + (CIm(V, e) * CIm(V, e)) \div FK])
          IN AbsI(q - FK) <= Tol
       /\ \A i \in 1..n :
            LET e == (i - 1) * n + j
                ar == SumI([k \in 1..n |-> MAt(x, i, k) * CRe(V, (k - 1) * n + j)])
                ai == SumI([k \in 1..n |-> MAt(x, i, k) * CIm(V, (k - 1) * n + j)])
                wr == (CRe(W, j) * CRe(V, e)) \div FK - (CIm(W, j) * CIm(V, e)) \div FK
                wi == (CRe(W, j) * CIm(V, e)) \div FK + (CIm(W, j) * CRe(V, e)) \div FK
            IN AbsI(ar - wr) <= 3 * Tol /\ AbsI(ai - wi) <= 3 * Tol
\* power sums of the eigenvalues are the traces of the powers (scale 1024)
CPow(z, k) == LET RECURSIVE G(_) G(j) == IF j = 1 THEN z ELSE LET y == G(j - 1) IN
                    <<(y[1] * z[1] - y[2] * z[2]) \div 256, (y[1] * z[2] + y[2] * z[1]) \div 256>> IN G(k)
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 1 THEN x ELSE MulI(x, PowI(x, k - 1))
EigSums(a, W) ==
  LET n == a.s[1] x == IntMx(a) IN
  /\ W.s = <<n, 2>> /\ FxOK(W, 16 * FK)
  /\ AbsI(SumI([i \in 1..n |-> CRe(W, i)]) - FK * TraceI(x)) <= Tol
  /\ AbsI(SumI([i \in 1..n |-> CIm(W, i)])) <= Tol
  /\ \A k \in 2..MinI(n, 3) :
       LET z(i) == CPow(<<CRe(W, i) \div 32, CIm(W, i) \div 32>>, k) IN
       /\ AbsI(SumI([i \in 1..n |-> z(i)[1]]) - 256 * TraceI(PowI(x, k))) <= 256 * n
       /\ AbsI(SumI([i \in 1..n |-> z(i)[2]])) <= 256 * n
\* exact equations A X = den * Y
SolvesTo(x, y, den, z) == MulI(x, y) = ScaleM(z, den)
SumSq(x) == SumI([i \in 1..Len(x.q) |-> x.q[i] * x.q[i]])
ColAbs(x, j) == SumI([i \in 1..x.m |-> AbsI(MAt(x, i, j))])
RowAbs(x, i) == SumI([j \in 1..x.n |-> AbsI(MAt(x, i, j))])
MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m
MinOf(S) == CHOOSE m \in S : \A k \in S : k >= m
\* powers of norms: 2-norms are observed squared, the 3-norm cubed
VecNorm(q, o) ==
  IF q = <<>> THEN 0 ELSE
  CASE o \in {"", "2", "fro"} -> SumI([i \in 1..Len(q) |-> q[i] * q[i]])
    [] o = "1" -> SumI([i \in 1..Len(q) |-> AbsI(q[i])])
    [] o = "0" -> Cardinality({i \in 1..Len(q) : q[i] # 0})
    [] o = "3" -> SumI([i \in 1..Len(q) |-> AbsI(q[i]) * q[i] * q[i]])
    [] o = "inf" -> MaxOf({AbsI(q[i]) : i \in 1..Len(q)})
    [] o = "-inf" -> MinOf({AbsI(q[i]) : i \in 1..Len(q)})
MatNorm(x, o) ==
  IF Len(x.q) = 0 THEN 0 ELSE
  CASE o \in {"", "fro"} -> SumSq(x)
    [] o = "1" -> MaxOf({ColAbs(x, j) : j \in 1..x.n})
    [] o = "-1" -> MinOf({ColAbs(x, j) : j \in 1..x.n})
    [] o = "inf" -> MaxOf({RowAbs(x, i) : i \in 1..x.m})
    [] o = "-inf" -> MinOf({RowAbs(x, i) : i \in 1..x.m})
FlatI(a) == TLCEval([i \in 1..Len(a.v) |-> a.v[i][1]])
LaPost(X, p, R) ==
  LET a == X[1] x == IntMx(a) m == x.m n == x.n IN
  CASE p.f = "solve" ->
         /\ R[1].s = X[2].s /\ R[1].d = "float64" /\ Scalable(R[1], p.den)
         /\ SolvesTo(x, ScaledMx(R[1], p.den), p.den, IntMx(X[2]))
    [] p.f = "inv" ->
         /\ R[1].s = a.s /\ R[1].d = "float64" /\ Scalable(R[1], p.den)
         /\ SolvesTo(x, ScaledMx(R[1], p.den), p.den, IdM(n, 1))
         /\ SolvesTo(ScaledMx(R[1], p.den), x, p.den, IdM(n, 1))
    [] p.f = "det" -> R[1].v[1] = DetM(x)
    [] p.f = "slogdet" -> LET d == DetM(x) IN R[1].v[1] = I(Sgn(d)) /\ R[2].v[1] = IntAbs(d)
    [] p.f = "qr" ->
         LET k == MinI(m, n) IN
         /\ AllF64(R) /\ Shape2(R[2], m, k) /\ Shape2(R[3], k, n)
         /\ FxOK(R[2], FK + Tol) /\ FxOK(R[3], 26 * FK)
         /\ Ortho(Fx(R[2])) /\ UpperTri(Fx(R[3]), 2)
         /\ Near(MulK(Fx(R[2]), Fx(R[3])), ScaleM(x, FK), 2 * Tol)
    [] p.f = "svd" -> AllF64(R) /\ SvdOK(a, R[2], R[3], R[4])
    [] p.f = "svdvals" -> AllF64(R) /\ SvdOK(a, R[3], R[4], R[5]) /\ SameFx(R[2], R[4], 4)
    [] p.f = "svnorm" ->                        \* nuclear and spectral norms, condition number times smallest value
         LET s == FlatI(R[4]) k == Len(s) IN
         /\ SvdOK(a, R[3], R[4], R[5])
         /\ AbsI(R[2].v[1][1] - SumI(s)) <= Tol /\ AbsI(R[2].v[2][1] - s[1]) <= 4 /\ AbsI(R[2].v[3][1] - s[k]) <= 4
         /\ AbsI(R[2].v[4][1] - s[1]) <= Tol /\ AbsI(R[2].v[5][1] - s[k]) <= Tol
    [] p.f = "eigh" -> AllF64(R) /\ EighOK(a, R[2], R[3])
    [] p.f = "eigvalsh" -> AllF64(R) /\ EighOK(a, R[3], R[4]) /\ SameFx(R[2], R[3], 4)
    [] p.f = "eig" -> EigOK(a, R[2], R[3]) /\ EigSums(a, R[2])
    [] p.f = "eigvals" -> EigSums(a, R[2])
    [] p.f = "cholesky" ->
         /\ AllF64(R) /\ Shape2(R[2], n, n) /\ FxOK(R[2], 5 * FK)
         /\ LowerTri(Fx(R[2]), 0) /\ (\A i \in 1..n : MAt(Fx(R[2]), i, i) > 0)
         /\ Near(MulK(Fx(R[2]), TrM(Fx(R[2]))), ScaleM(LowSym(x), FK), 2 * Tol)
    [] p.f = "matrix_rank" -> R[1].v[1] = I(RankM(x))
    [] p.f = "pinv" ->
         /\ R[1].s = <<n, m>> /\ R[1].d = "float64" /\ Scalable(R[1], p.den)
         /\ LET y == ScaledMx(R[1], p.den) xy == MulI(x, y) yx == MulI(y, x) IN
            /\ MulI(xy, x) = ScaleM(x, p.den)
            /\ xy = TrM(xy) /\ yx = TrM(yx)
            /\ Within(yx, 2097152) /\ Within(y, 8192) => MulI(yx, y) = ScaleM(y, p.den)
    [] p.f = "lstsq" ->                          \* x, residuals, rank, singular values (fixed point)
         LET b == IntMx(X[2]) r == RankM(x)
             ns == Mx(n, n - r, p.ns) IN
         /\ R[1].s = (IF Ndim(X[2]) = 1 THEN <<n>> ELSE <<n, X[2].s[2]>>) /\ R[1].d = "float64" /\ Scalable(R[1], p.den)
         /\ LET y == ScaledMx(R[1], p.den)
                e == MulI(x, y)
                rs == Mx(e.m, e.n, TLCEval([i \in 1..Len(e.q) |-> e.q[i] - p.den * b.q[i]])) IN
            /\ MulI(TrM(x), rs) = Mx(n, b.n, [i \in 1..(n * b.n) |-> 0])     \* normal equations
            /\ (n > r => MulI(TrM(y), ns) = Mx(b.n, n - r, [i \in 1..(b.n * (n - r)) |-> 0]))  \* least norm
            /\ R[3].v[1] = I(r)
            /\ (IF m > n /\ r = n
                THEN /\ R[2].s = <<b.n>> /\ Scalable(R[2], p.den * p.den)
                     /\ \A j \in 1..b.n : R[2].v[j][1] * ((p.den * p.den) \div R[2].v[j][2]) = SumI([i \in 1..m |-> MAt(rs, i, j) * MAt(rs, i, j)])
                ELSE R[2].s = <<0>>)
         /\ R[4].s = <<MinI(m, n)>> /\ FxOK(R[4], 26 * FK)
         /\ LET s == FlatI(R[4]) IN
            AbsI(SumI([i \in 1..Len(s) |-> ((s[i] \div 8) * (s[i] \div 8)) \div 1024]) - 1024 * SumSq(x)) <= 1024
    [] p.f = "matrix_power" ->                   \* negative power: inverse of the positive one
         /\ R[1].s = a.s /\ Scalable(R[1], p.den)
         /\ SolvesTo(PowI(x, -p.m), ScaledMx(R[1], p.den), p.den, IdM(n, 1))
    [] p.f = "vector_norm" -> R[1].v[1] = Canon(VecNorm(FlatI(a), p.o))
    [] p.f \in {"norm", "matrix_norm"} ->
         R[1].v[1] = Canon(IF Ndim(a) = 1 THEN VecNorm(FlatI(a), p.o) ELSE MatNorm(x, p.o))
    [] p.f = "tensorsolve" ->
         LET t == IF p.ax = <<>> THEN a
                  ELSE PermA(a, p.perm)
             k == Size(X[2].s) q == SubSeq(t.s, Ndim(X[2]) + 1, Ndim(t)) IN
         /\ R[1].s = q /\ R[1].d = "float64" /\ Scalable(R[1], p.den)
         /\ SolvesTo(Mx(k, k, FlatI(t)), Mx(k, 1, ScaledMx(Reshape(R[1], <<k>>), p.den).q), p.den, Mx(k, 1, FlatI(X[2])))
    [] p.f = "tensorinv" ->
         LET k == Size(SubSeq(a.s, 1, p.ind)) IN
         /\ R[1].s = SubSeq(a.s, p.ind + 1, Ndim(a)) \o SubSeq(a.s, 1, p.ind) /\ R[1].d = "float64" /\ Scalable(R[1], p.den)
         /\ SolvesTo(Mx(k, k, FlatI(a)), Mx(k, k, ScaledMx(Reshape(R[1], <<k * k>>), p.den).q), p.den, IdM(k, 1))

(* -------------------------- Fourier transforms -------------------------- *)
(* p.ax transformed axes (0-based); p.N common multiple of their lengths;   *)
(* p.c, p.t cosine and sine table of order N, scale 2^14                    *)
FS == 16384
TwOK(p) == /\ Len(p.c) = p.N /\ Len(p.t) = p.N /\ p.c[1] = FS /\ p.t[1] = 0
           /\ \A k \in 1..p.N : AbsI((p.c[k] * p.c[k]) \div FS + (p.t[k] * p.t[k]) \div FS - FS) <= 4
           /\ (p.N > 1 => (\A k \in 2..p.N :
                 LET r == <<(p.c[k - 1] * p.c[2]) \div FS - (p.t[k - 1] * p.t[2]) \div FS,
                            (p.c[k - 1] * p.t[2]) \div FS + (p.t[k - 1] * p.c[2]) \div FS>> IN
                 AbsI(r[1] - p.c[k]) <= 4 /\ AbsI(r[2] - p.t[k]) <= 4))
FwdF == {"fft", "fft2", "fftn", "rfft", "rfft2", "rfftn", "ihfft"}
HalfOut == {"rfft", "rfft2", "rfftn", "ihfft"}
RealOut == {"irfft", "irfft2", "irfftn", "hfft"}
CPart(v, k) == IF Len(v) = 4 THEN v[2 * k - 1] ELSE IF k = 1 THEN v[1] ELSE 0
FftPre(a, p) == IF p.ok = 0 THEN FALSE ELSE TwOK(p)
FftPost(a, p, r) ==
  LET n == Ndim(a)
      last == p.ax[Len(p.ax)] + 1
      \* lengths of the transforms along each axis
      len == TLCEval([d \in 1..n |-> IF d = last /\ p.f \in RealOut THEN p.nn ELSE a.s[d]])
      os == TLCEval([d \in 1..n |-> IF d = last /\ p.f \in HalfOut THEN a.s[d] \div 2 + 1 ELSE len[d]])
      axs == {p.ax[i] + 1 : i \in 1..Len(p.ax)}
      sg == IF p.f \in FwdF THEN -1 ELSE 1
      cj == IF p.f = "hfft" THEN -1 ELSE 1         \* conjugated input
      oc == IF p.f = "ihfft" THEN -1 ELSE 1        \* conjugated output
      nrm == IF p.f \in {"fft", "fft2", "fftn", "rfft", "rfft2", "rfftn", "hfft"} THEN 1
             ELSE Size(TLCEval([i \in 1..Len(p.ax) |-> len[p.ax[i] + 1]]))
      cs == TLCEval(CStrides(a.s)) cos == TLCEval(CStrides(os))
      src == TLCEval([j \in 1..Size(a.s) |-> TLCEval(Unravel(j - 1, a.s, cs))])
      re == TLCEval([j \in 1..Size(a.s) |-> CPart(a.v[j], 1)])
      im == TLCEval([j \in 1..Size(a.s) |-> cj * CPart(a.v[j], 2)])
      \* weight of a half-spectrum sample
      wt == TLCEval([j \in 1..Size(a.s) |->
              IF p.f \notin RealOut THEN 1
              ELSE LET k == src[j][last] IN IF 2 * k > len[last] THEN 0 ELSE IF k = 0 \/ 2 * k = len[last] THEN 1 ELSE 2])
      ph(o, j) == SumI(TLCEval([d \in 1..n |-> IF d \in axs THEN (o[d] * src[j][d] * (p.N \div len[d])) % p.N ELSE 0])) % p.N
      tot == Size(os)
      real == p.f \in RealOut
  IN /\ r.s = (IF real THEN os ELSE os \o <<2>>)
     /\ SmallInts(r, 33554432 \div nrm)
     /\ \A q \in 1..tot :
          LET o == TLCEval(Unravel(q - 1, os, cos))
              H == TLCEval(SelectSeq(TLCEval([j \in 1..Size(a.s) |-> j]), LAMBDA j : \A d \in 1..n : d \in axs \/ o[d] = src[j][d]))
              P == TLCEval([i \in 1..Len(H) |-> ph(o, H[i]) + 1])
              sr == SumI(TLCEval([i \in 1..Len(H) |-> wt[H[i]] * (re[H[i]] * p.c[P[i]] - sg * im[H[i]] * p.t[P[i]])]))
              si == SumI(TLCEval([i \in 1..Len(H) |-> wt[H[i]] * (im[H[i]] * p.c[P[i]] + sg * re[H[i]] * p.t[P[i]])]))
              tol == 24 * Len(H) + nrm + 8
          IN IF real THEN AbsI(r.v[q][1] * nrm - sr) <= tol
             ELSE AbsI(r.v[2 * q - 1][1] * nrm - sr) <= tol /\ AbsI(r.v[2 * q][1] * nrm - oc * si) <= tol

LaRel == {"la", "dft"}
LaRelPre(e, A) == IF e.op = "la" THEN LaPre(A, e.p) ELSE FftPre(A[1], e.p)
LaRelPost(e, A, R) == IF e.op = "la" THEN LaPost(A, e.p, R)
                      ELSE R[1].v = <<I(e.p.dt)>> /\ FftPost(A[1], e.p, R[2])
=============================================================================
