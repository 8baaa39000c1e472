-------------------------------- MODULE Grid --------------------------------
(* Constructors, grids and index utilities: every result enumerates a set    *)
(* of index tuples, or evaluates a formula on one.                           *)
EXTENDS Convert

GErr == [err |-> "E", res |-> <<>>]
GArrs(q) == [err |-> "", res |-> [i \in 1..Len(q) |-> [t |-> "arr", a |-> q[i]]]]
GOne(a) == GArrs(<<a>>)
GInts(q) == Arr(<<Len(q)>>, "int64", [i \in 1..Len(q) |-> Canon(q[i])])
\* the array of shape s whose element at index ix is F(ix)
FromIdx(s, d, F(_)) == LET cs == CStrides(s) IN Arr(s, d, [k \in 1..Size(s) |-> F(Unravel(k - 1, s, cs))])
RECURSIVE FPow(_, _)
FPow(b, k) == IF k = 0 THEN One ELSE IF k < 0 THEN FInv(FPow(b, -k)) ELSE FMul(b, FPow(b, k - 1))
CeilDiv(a, b) == -((-a) \div b)
CeilF(v) == FCeil(v)[1]
\* a list of equally long integer tuples, as nested lists appear
PyRows(q, w) == Arr(IF q = <<>> THEN <<0>> ELSE <<Len(q), w>>, "py", Flatten([i \in 1..Len(q) |-> [j \in 1..w |-> I(q[i][j])]]))
Tuples(s) == LET cs == CStrides(s) IN [k \in 1..Size(s) |-> Unravel(k - 1, s, cs)]
Pairs(n, m, P(_, _)) ==        \* row-major positions (i, j) with P
  LET T == Tuples(<<n, m>>) t == SelectIdx(T, LAMBDA k : P(T[k][1], T[k][2]))
  IN <<GInts([k \in 1..Len(t) |-> T[t[k]][1]]), GInts([k \in 1..Len(t) |-> T[t[k]][2]])>>
FStrides(s) == [i \in 1..Len(s) |-> Size(SubSeq(s, 1, i - 1))]
\* cos(2 pi k / n) for the n where it is rational
Cos(k, n) ==
  LET j == k % n IN
  CASE n = 1 -> One
    [] n = 2 -> IF j = 0 THEN One ELSE I(-1)
    [] n = 3 -> IF j = 0 THEN One ELSE <<-1, 2>>
    [] n = 4 -> IF j = 0 THEN One ELSE IF j = 2 THEN I(-1) ELSE Zero
    [] n = 6 -> IF j = 0 THEN One ELSE IF j = 3 THEN I(-1) ELSE IF j \in {1, 5} THEN <<1, 2>> ELSE <<-1, 2>>
Window(f, m, i) ==
  IF m = 1 THEN One ELSE
  LET c == Cos(i, m - 1) c2 == Cos(2 * i, m - 1) IN
  CASE f = "hanning" -> FMul(<<1, 2>>, FSub(One, c))
    [] f = "hamming" -> FSub(<<27, 50>>, FMul(<<23, 50>>, c))
    [] f = "blackman" -> FAdd(FSub(<<21, 50>>, FMul(<<1, 2>>, c)), FMul(<<2, 25>>, c2))
Bartlett(m, i) == IF m = 1 THEN One ELSE FSub(One, FAbs(FSub(Rat(2 * i, m - 1), One)))
\* bits of a lane, packed eight to a byte
BitVal(q, i, j, little) ==     \* bit j (0-based, in order) of byte i
  LET k == 8 * i + j IN IF k < Len(q) /\ Truthy(q[k + 1]) THEN Pow2(IF little THEN j ELSE 7 - j) ELSE 0
Pack(q, little) ==
  [i \in 1..CeilDiv(Len(q), 8) |-> I(SumI([j \in 1..8 |-> BitVal(q, i - 1, j - 1, little)]))]
UnpackedLen(n, p) == IF p.hc = 0 THEN n ELSE IF p.count < 0 THEN MaxI(0, n + p.count) ELSE p.count
Unpack(q, m, little) ==
  [k \in 1..m |-> LET i == (k - 1) \div 8 j == (k - 1) % 8 IN
     IF i >= Len(q) THEN Zero
     ELSE I((q[i + 1][1] \div Pow2(IF little THEN j ELSE 7 - j)) % 2)]
Along0(A, ax, m, d, F(_)) == AlongMap(A, ax, m, d, F)
Roll1(A, i, k) == LET n == A.s[i] IN IF n = 0 THEN A ELSE Gather(A, A.s, LAMBDA ix : [ix EXCEPT ![i] = (@ + n - (k % n)) % n])
RECURSIVE RollAll(_, _, _)
RollAll(A, i, up) == IF i > Ndim(A) THEN A
                     ELSE RollAll(Roll1(A, i, IF up THEN A.s[i] \div 2 ELSE A.s[i] - A.s[i] \div 2), i + 1, up)
MapIdx(x, n, mode) ==
  CASE mode = "clip" -> IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x
    [] mode = "wrap" -> x % n
    [] OTHER -> x
AxisN(k) == IF k[3] > 0 THEN MaxI(0, CeilDiv(k[2] - k[1], k[3])) ELSE MaxI(0, CeilDiv(k[1] - k[2], -k[3]))

GridApply(e, A) ==
  LET p == e.p f == p.f IN
  CASE f = "full" -> GOne(Arr(p.s, p.d, Const(Size(p.s), CastR(p.v, p.vd, p.d))))
    [] f = "full_like" -> LET d == IF p.to = "" THEN A[1].d ELSE p.to IN GOne(Arr(A[1].s, d, Const(Size(A[1].s), CastR(p.v, p.vd, d))))
    [] f = "arange" ->
         IF p.step = Zero THEN GErr
         ELSE LET d == IF p.to # "" THEN p.to ELSE IF p.fl = 1 THEN "float64" ELSE "int64"
                  n == MaxI(0, CeilF(FDiv(FSub(p.stop, p.start), p.step)))
              IN GOne(Arr(<<n>>, d, [i \in 1..n |-> CastR(FAdd(p.start, FMul(I(i - 1), p.step)), "float64", d)]))
    [] f = "linspace" ->
         LET d == IF p.to = "" THEN "float64" ELSE p.to
             st == IF p.num > 1 THEN FDiv(FSub(p.stop, p.start), I(p.num - 1)) ELSE Zero
             x(i) == FAdd(p.start, FMul(I(i - 1), st))
         IN IF p.num < 0 THEN GErr
            ELSE GOne(Arr(<<p.num>>, d, [i \in 1..p.num |-> IF IsIntT(d) THEN Wrap(d, FFloor(x(i))) ELSE Cast(x(i), "float64", d)]))
    [] f = "logspace" ->       \* integer exponents
         LET st == IF p.num > 1 THEN (p.stop - p.start) \div (p.num - 1) ELSE 0 IN
         GOne(Arr(<<p.num>>, "float64", [i \in 1..p.num |-> FPow(I(p.base), p.start + (i - 1) * st)]))
    [] f = "geomspace" ->      \* stop = start * r^(num - 1)
         GOne(Arr(<<p.num>>, "float64", [i \in 1..p.num |-> FMul(p.start, FPow(p.r, i - 1))]))
    [] f = "eye" -> GOne(FromIdx(<<p.n, p.n>>, p.d, LAMBDA ix : Cast(Bool(ix[1] = ix[2]), "bool", p.d)))
    [] f = "tri" -> GOne(FromIdx(<<p.n, p.m>>, p.d, LAMBDA ix : Cast(Bool(ix[2] <= ix[1] + p.k), "bool", p.d)))
    [] f = "indices" ->
         LET n == Len(p.s) IN
         GOne(FromIdx(<<n>> \o p.s, p.d, LAMBDA ix : Cast(I(ix[ix[1] + 2]), "int64", p.d)))
    [] f = "meshgrid" ->
         LET n == Len(A)
             L == [i \in 1..n |-> Len(A[i].v)]
             sw == n >= 2 /\ p.ij = 0
             s == [i \in 1..n |-> IF sw /\ i = 1 THEN L[2] ELSE IF sw /\ i = 2 THEN L[1] ELSE L[i]]
             pos(i) == IF sw /\ i = 1 THEN 2 ELSE IF sw /\ i = 2 THEN 1 ELSE i
         IN GArrs([i \in 1..n |-> FromIdx(s, A[i].d, LAMBDA ix : A[i].v[ix[pos(i)] + 1])])
    [] f \in {"mgrid", "ogrid"} ->
         LET n == Len(p.k)
             s == [i \in 1..n |-> AxisN(p.k[i])]
             sh(i) == IF f = "mgrid" THEN s ELSE [j \in 1..n |-> IF j = i THEN s[i] ELSE 1]
         IN GArrs([i \in 1..n |-> FromIdx(sh(i), "int64", LAMBDA ix : I(p.k[i][1] + ix[i] * p.k[i][3]))])
    [] f = "diag_indices" -> GArrs([i \in 1..p.m |-> GInts(Iota(p.n))])
    [] f = "diag_indices_from" ->
         IF Ndim(A[1]) < 2 \/ \E i \in 1..Ndim(A[1]) : A[1].s[i] # A[1].s[1] THEN GErr
         ELSE GArrs([i \in 1..Ndim(A[1]) |-> GInts(Iota(A[1].s[1]))])
    [] f = "tril_indices" -> GArrs(Pairs(p.n, p.m, LAMBDA i, j : j <= i + p.k))
    [] f = "triu_indices" -> GArrs(Pairs(p.n, p.m, LAMBDA i, j : j >= i + p.k))
    [] f = "tril_indices_from" -> IF Ndim(A[1]) # 2 THEN GErr ELSE GArrs(Pairs(A[1].s[1], A[1].s[2], LAMBDA i, j : j <= i + p.k))
    [] f = "triu_indices_from" -> IF Ndim(A[1]) # 2 THEN GErr ELSE GArrs(Pairs(A[1].s[1], A[1].s[2], LAMBDA i, j : j >= i + p.k))
    [] f = "unravel_index" ->
         LET X == IF p.sc = 1 THEN Arr(<<>>, "int64", <<I(p.i)>>) ELSE A[1]
             cs == IF p.o = "F" THEN FStrides(p.s) ELSE CStrides(p.s)
         IN IF \E k \in 1..Len(X.v) : X.v[k][1] < 0 \/ X.v[k][1] >= Size(p.s) THEN GErr
            ELSE IF p.sc = 1
            THEN [err |-> "", res |-> [j \in 1..Len(p.s) |-> [t |-> "sc", v |-> I((p.i \div cs[j]) % p.s[j])]]]
            ELSE GArrs([j \in 1..Len(p.s) |-> Arr(X.s, "int64", [k \in 1..Len(X.v) |-> I((X.v[k][1] \div cs[j]) % p.s[j])])])
    [] f = "ravel_multi_index" ->
         LET cs == IF p.o = "F" THEN FStrides(p.s) ELSE CStrides(p.s) n == Len(p.s)
             bad == \E j \in 1..n : \E k \in 1..Len(A[j].v) : A[j].v[k][1] < 0 \/ A[j].v[k][1] >= p.s[j]
         IN IF p.mode = "raise" /\ bad THEN GErr
            ELSE GOne(Arr(A[1].s, "int64", [k \in 1..Len(A[1].v) |->
                   I(SumI([j \in 1..n |-> cs[j] * MapIdx(A[j].v[k][1], p.s[j], p.mode)]))]))
    [] f = "packbits" ->
         IF p.ha = 0 THEN GOne(LET q == Pack(A[1].v, p.o = "little") IN Arr(<<Len(q)>>, "uint8", q))
         ELSE IF ~AxisOK(p.axis, Ndim(A[1])) THEN GErr
         ELSE LET ax == NormAxis(p.axis, Ndim(A[1])) IN
              GOne(Along0(A[1], ax, CeilDiv(A[1].s[ax + 1], 8), "uint8", LAMBDA q : Pack(q, p.o = "little")))
    [] f = "unpackbits" ->
         IF A[1].d # "uint8" THEN GErr
         ELSE IF p.ha = 0 THEN GOne(LET q == Unpack(A[1].v, UnpackedLen(8 * Len(A[1].v), p), p.o = "little") IN Arr(<<Len(q)>>, "uint8", q))
         ELSE IF ~AxisOK(p.axis, Ndim(A[1])) THEN GErr
         ELSE LET ax == NormAxis(p.axis, Ndim(A[1])) m == UnpackedLen(8 * A[1].s[ax + 1], p) IN
              GOne(Along0(A[1], ax, m, "uint8", LAMBDA q : Unpack(q, m, p.o = "little")))
    [] f = "ix_" ->
         IF \E i \in 1..Len(A) : Ndim(A[i]) # 1 THEN GErr
         ELSE GArrs([i \in 1..Len(A) |->
                LET q == IF A[i].d = "bool" THEN LET t == SelectIdx(A[i].v, LAMBDA k : Truthy(A[i].v[k])) IN [k \in 1..Len(t) |-> I(t[k] - 1)]
                         ELSE A[i].v
                IN Arr([j \in 1..Len(A) |-> IF j = i THEN Len(q) ELSE 1], IF A[i].d = "bool" THEN "int64" ELSE A[i].d, q)])
    [] f = "ndindex" -> GOne(PyRows(Tuples(p.s), Len(p.s)))
    [] f = "ndenumerate" -> GArrs(<<PyRows(Tuples(A[1].s), Ndim(A[1])), Arr(<<Len(A[1].v)>>, "py", A[1].v)>>)
    [] f = "broadcast_shapes" ->
         LET b == BcastAll(p.ss) IN IF ~b[1] THEN GErr ELSE GOne(Arr(<<Len(b[2])>>, "py", [i \in 1..Len(b[2]) |-> I(b[2][i])]))
    [] f = "fromfunction" ->   \* an affine function of the indices
         GOne(FromIdx(p.s, p.d, LAMBDA ix : CastR(I(p.c + DotI(p.w, ix, 1)), "float64", p.d)))
    [] f = "bartlett" -> GOne(Arr(<<p.m>>, "float64", [i \in 1..p.m |-> Bartlett(p.m, i - 1)]))
    [] f \in {"hanning", "hamming", "blackman"} -> GOne(Arr(<<p.m>>, "float64", [i \in 1..p.m |-> Window(f, p.m, i - 1)]))
    [] f = "fftfreq" ->
         LET h == (p.n - 1) \div 2 + 1 IN
         GOne(Arr(<<p.n>>, "float64", [i \in 1..p.n |-> FDiv(I(IF i <= h THEN i - 1 ELSE i - 1 - p.n), FMul(I(p.n), p.dd))]))
    [] f = "rfftfreq" ->
         GOne(Arr(<<p.n \div 2 + 1>>, "float64", [i \in 1..(p.n \div 2 + 1) |-> FDiv(I(i - 1), FMul(I(p.n), p.dd))]))
    [] f = "fftshift" -> GOne(RollAll(A[1], 1, TRUE))
    [] f = "ifftshift" -> GOne(RollAll(A[1], 1, FALSE))
=============================================================================
