------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* Contractions: products of arrays summed over shared labels.  Everything *)
(* is a special case of Einsum over integer labels.                        *)
(***************************************************************************)
EXTENDS Rearr

\* labels a, a+1, .., b
Labs(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
MaxLab(labs) == FoldFrom(LAMBDA m, q : FoldFrom(MaxI, m, q, 1), 0, labs, 1)
LabOf(labs) == UNION {Range(labs[i]) : i \in 1..Len(labs)}
LabSizes(A, labs, l) == UNION {{A[i].s[j] : j \in {j \in 1..Len(labs[i]) : labs[i][j] = l}} : i \in 1..Len(A)}
EinOK(A, labs, out) ==
  /\ Len(labs) = Len(A) /\ Len(A) > 0
  /\ \A i \in 1..Len(A) : Len(labs[i]) = Ndim(A[i])
  /\ \A l \in LabOf(labs) : Cardinality(LabSizes(A, labs, l)) = 1
  /\ \A i \in 1..Len(out) : out[i] \in LabOf(labs) /\ (\A j \in 1..(i - 1) : out[j] # out[i])
OneOf(d) == IF Kind(d) = "c" THEN Cx(One, Zero) ELSE One
\* stride of label l in an operand (repeated labels walk the diagonal)
LabStride(lab, cs, l) == SumI([j \in 1..Len(lab) |-> IF lab[j] = l THEN cs[j] ELSE 0])
RECURSIVE ProdAt(_, _, _, _, _)
ProdAt(V, off, off2, d, i) ==        \* product of operands i.. at their offsets
  IF i = Len(V) THEN V[i][1 + off[i] + off2[i]] ELSE Mul(d, V[i][1 + off[i] + off2[i]], ProdAt(V, off, off2, d, i + 1))
Einsum(A, labs, out) ==
  IF ~EinOK(A, labs, out) THEN BadA
  ELSE LET d == CommonD(A)
           V == TLCEval([i \in 1..Len(A) |-> TLCEval(Cast1(A[i], d).v)])
           sz == TLCEval([l \in LabOf(labs) |-> CHOOSE n \in LabSizes(A, labs, l) : TRUE])
           con == TLCEval(SelectSeq(Labs(1, MaxLab(labs)), LAMBDA l : l \in LabOf(labs) /\ l \notin Range(out)))
           so == TLCEval([i \in 1..Len(out) |-> sz[out[i]]])
           sc == TLCEval([i \in 1..Len(con) |-> sz[con[i]]])
           cso == TLCEval(CStrides(so)) csc == TLCEval(CStrides(sc))
           cs == TLCEval([i \in 1..Len(A) |-> CStrides(A[i].s)])
           sto == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(out) |-> LabStride(labs[i], cs[i], out[j])]])
           stc == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(con) |-> LabStride(labs[i], cs[i], con[j])]])
           offc == TLCEval([c \in 1..Size(sc) |-> TLCEval([i \in 1..Len(A) |-> RavelIdx(Unravel(c - 1, sc, csc), stc[i])])])
       IN Arr(so, d, [k \in 1..Size(so) |->
            LET off == TLCEval([i \in 1..Len(A) |-> RavelIdx(Unravel(k - 1, so, cso), sto[i])])
            IN SumD(d, [c \in 1..Size(sc) |-> ProdAt(V, off, offc[c], d, 1)])])
\* matmul: one-dimensional operands are promoted, the leading dimensions broadcast
MatMul(A, Bx) ==
  LET a == IF Ndim(A) = 1 THEN Reshape(A, <<1>> \o A.s) ELSE A
      b == IF Ndim(Bx) = 1 THEN Reshape(Bx, Bx.s \o <<1>>) ELSE Bx
      na == Ndim(a) nb == Ndim(b)
      bc == TLCEval(Bcast2(SubSeq(a.s, 1, na - 2), SubSeq(b.s, 1, nb - 2)))
  IN IF Ndim(A) = 0 \/ Ndim(Bx) = 0 THEN BadA
     ELSE IF ~BcastOK2(SubSeq(a.s, 1, na - 2), SubSeq(b.s, 1, nb - 2)) \/ a.s[na] # b.s[nb - 1] THEN BadA
     ELSE LET n == Len(bc)
              L == Labs(1, n)
              R == Einsum(<<BcastTo(a, bc \o SubSeq(a.s, na - 1, na)), BcastTo(b, bc \o SubSeq(b.s, nb - 1, nb))>>,
                          <<L \o <<n + 1, n + 2>>, L \o <<n + 2, n + 3>>>>, L \o <<n + 1, n + 3>>)
          IN Reshape(R, bc \o (IF Ndim(A) = 1 THEN <<>> ELSE <<a.s[na - 1]>>) \o (IF Ndim(Bx) = 1 THEN <<>> ELSE <<b.s[nb]>>))
\* contraction of axes xa of A with axes xb of B (0-based, nonnegative)
TensorDot(A, Bx, xa, xb) ==
  IF Len(xa) # Len(xb) \/ ~AxesOK(xa, Ndim(A)) \/ ~AxesOK(xb, Ndim(Bx)) THEN BadA
  ELSE LET ya == [i \in 1..Len(xa) |-> NormAxis(xa[i], Ndim(A))]
           yb == [i \in 1..Len(xb) |-> NormAxis(xb[i], Ndim(Bx))]
           la == Labs(1, Ndim(A))
           lb == [j \in 1..Ndim(Bx) |-> IF \E i \in 1..Len(yb) : yb[i] = j - 1
                                        THEN ya[CHOOSE i \in 1..Len(yb) : yb[i] = j - 1] + 1 ELSE 100 + j]
           fa == SelectSeq(la, LAMBDA l : \A i \in 1..Len(ya) : ya[i] # l - 1)
           fb == SelectSeq(lb, LAMBDA l : l > 100)
       IN Einsum(<<A, Bx>>, <<la, lb>>, fa \o fb)
Dot(A, Bx) ==
  IF Ndim(A) = 0 \/ Ndim(Bx) = 0 THEN
       LET d == CommonD(<<A, Bx>>) IN Zip2(A, Bx, Bcast2(A.s, Bx.s), d, LAMBDA x, y : Mul(d, Cast(x, A.d, d), Cast(y, Bx.d, d)))
  ELSE TensorDot(A, Bx, <<Ndim(A) - 1>>, <<IF Ndim(Bx) = 1 THEN 0 ELSE Ndim(Bx) - 2>>)
\* vectors along the last axes, the leading dimensions broadcast
Inner(A, Bx) ==
  IF Ndim(A) = 0 \/ Ndim(Bx) = 0 THEN BadA
  ELSE LET R == MatMul(Reshape(A, SubSeq(A.s, 1, Ndim(A) - 1) \o <<1, A.s[Ndim(A)]>>), Reshape(Bx, Bx.s \o <<1>>))
       IN IF IsBad(R) THEN R ELSE Reshape(R, SubSeq(R.s, 1, Ndim(R) - 2))
Outer(A, Bx) == Einsum(<<Ravel(A), Ravel(Bx)>>, <<<<1>>, <<2>>>>, <<1, 2>>)
Kron(A, Bx) ==
  LET n == MaxI(Ndim(A), Ndim(Bx)) sa == PadL(A.s, n) sb == PadL(Bx.s, n)
      la == [i \in 1..n |-> 2 * i - 1] lb == [i \in 1..n |-> 2 * i]
      R == Einsum(<<Reshape(A, sa), Reshape(Bx, sb)>>, <<la, lb>>, Labs(1, 2 * n))
  IN Reshape(R, [i \in 1..n |-> sa[i] * sb[i]])
Cross3(A, Bx) ==
  IF A.s # <<3>> \/ Bx.s # <<3>> \/ CommonD(<<A, Bx>>) = "bool" THEN BadA
  ELSE LET d == CommonD(<<A, Bx>>) a == Cast1(A, d).v b == Cast1(Bx, d).v
           c(i, j) == Sub(d, Mul(d, a[i], b[j]), Mul(d, a[j], b[i]))
       IN Arr(<<3>>, d, <<c(2, 3), c(3, 1), c(1, 2)>>)
EyeA(n, d) == Arr(<<n, n>>, d, [q \in 1..(n * n) |-> IF (q - 1) \div n = (q - 1) % n THEN OneOf(d) ELSE ZeroOf(d)])
RECURSIVE MatPow(_, _)
MatPow(A, k) == IF k = 0 THEN EyeA(A.s[1], A.d) ELSE MatMul(A, MatPow(A, k - 1))
RECURSIVE MultiDot(_, _, _)
MultiDot(A, i, acc) == IF i > Len(A) \/ IsBad(acc) THEN acc ELSE MultiDot(A, i + 1, MatMul(acc, A[i]))
DiagV(A) == LET n == MinI(A.s[1], A.s[2]) IN [i \in 1..n |-> A.v[1 + (i - 1) * (A.s[2] + 1)]]
PySum(d, q) == IF Kind(d) = "c" THEN SumD(d, q) ELSE FSum(q)
ConjV(d, x) == IF Kind(d) = "c" THEN CConj(x) ELSE x
ContractApply(A, p) ==
  CASE p.f = "matmul" -> WrapA(MatMul(A[1], A[2]))
    [] p.f = "dot" -> WrapA(Dot(A[1], A[2]))
    [] p.f = "inner" -> WrapA(Inner(A[1], A[2]))
    [] p.f = "outer" -> WrapA(Outer(A[1], A[2]))
    [] p.f = "kron" -> WrapA(Kron(A[1], A[2]))
    [] p.f = "cross" -> WrapA(Cross3(A[1], A[2]))
    [] p.f = "tensordot" -> WrapA(TensorDot(A[1], A[2], p.xa, p.xb))
    [] p.f = "einsum" -> WrapA(Einsum(A, p.labs, p.out))
    [] p.f = "multi_dot" -> WrapA(MultiDot(A, 2, A[1]))
    [] p.f = "matrix_power" -> IF Ndim(A[1]) # 2 THEN Err ELSE IF A[1].s[1] # A[1].s[2] THEN Err ELSE WrapA(MatPow(A[1], p.m))
    [] p.f = "trace" -> IF Ndim(A[1]) # 2 THEN Err ELSE OkS(PySum(A[1].d, DiagV(A[1])))
    [] p.f = "vdot" ->
         IF Len(A[1].v) # Len(A[2].v) THEN Err
         ELSE LET d == CommonD(A) a == Cast1(A[1], d).v b == Cast1(A[2], d).v
                  w == IF Kind(d) = "c" THEN d ELSE "float64"
              IN OkS(PySum(d, [i \in 1..Len(a) |-> Mul(w, ConjV(d, a[i]), b[i])]))
=============================================================================
