------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Which calls are valid.  ErPre(A, p) is the precondition of the call     *)
(* p.f on operands A with the arguments in p (ax axis, k count or number,  *)
(* s shape, idx integers, mi lists of integers, labs labels).  A call is   *)
(* accepted if and only if its precondition holds; a call that is not      *)
(* accepted raises an ordinary exception and changes nothing.              *)
(***************************************************************************)
EXTENDS Text

ErOps == {"pre"}
\* reductions and scans along one axis
ErLoose == {"sum", "prod", "mean", "std", "var", "median", "all", "any", "nansum", "nanprod", "nanmean", "nanstd", "nanvar", "nanmedian",
            "cumsum", "cumprod", "cumulative_sum", "sort", "argsort", "flip", "unwrap", "average"}
ErStrict == {"max", "min", "ptp", "nanmax", "nanmin"}            \* no identity: an empty lane has no result
ErArg == {"argmax", "argmin", "nanargmax", "nanargmin"}          \* rejected for every empty axis
ErAxis(s, ax) == AxisOK(ax, Len(s))
ErNat(s, ax) == ax >= 0 /\ ax < Len(s)
ErDim(s, ax) == s[NormAxis(ax, Len(s)) + 1]
ErRest(s, ax) == RemoveAt(s, NormAxis(ax, Len(s)) + 1)
ErReduce(f, s, ax) ==
  /\ ErAxis(s, ax)
  /\ f \in ErStrict => (ErDim(s, ax) > 0 \/ Size(ErRest(s, ax)) = 0)
  /\ f \in ErArg => ErDim(s, ax) > 0
ErIn(idx, m) == \A i \in 1..Len(idx) : idx[i] >= -m /\ idx[i] < m
ErJoin(s, t, ax) == Len(s) = Len(t) /\ ErAxis(s, ax) /\ ErRest(s, ax) = ErRest(t, ax)
ErPermOf(idx, n) == Len(idx) = n /\ {idx[i] : i \in 1..Len(idx)} = 0..(n - 1)
ErMat(s, t) ==                       \* operands of matmul
  /\ Len(s) >= 1 /\ Len(t) >= 1
  /\ s[Len(s)] = t[IF Len(t) = 1 THEN 1 ELSE Len(t) - 1]
  /\ LET x == SubSeq(s, 1, Len(s) - 2) y == SubSeq(t, 1, Len(t) - 2) IN BcastOK2(x, y)
ErAtl2(s) == IF Len(s) = 0 THEN <<1, 1>> ELSE IF Len(s) = 1 THEN <<1>> \o s ELSE s
ErAtl3(s) == IF Len(s) = 0 THEN <<1, 1, 1>> ELSE IF Len(s) = 1 THEN <<1>> \o s \o <<1>> ELSE IF Len(s) = 2 THEN s \o <<1>> ELSE s
ErCol(s) == IF Len(s) <= 1 THEN <<Size(s), 1>> ELSE s
ErEven(m, k) == k >= 1 /\ m % k = 0
ErSign(x) == IF Len(x) = 7 THEN x[1] ELSE x[1]
ErFlatIdx(s, mi) ==
  /\ Len(mi) = Len(s)
  /\ \A i \in 1..Len(s) : \A j \in 1..Len(mi[i]) : mi[i][j] >= 0 /\ mi[i][j] < s[i]
ErDtypes == {"float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "bool",
             "complex128", "complex64"}
ErPre(A, p) ==
  LET f == p.f
      g == p.g                       \* family
      s == A[1].s
      n == Len(s)
      t == A[2].s
  IN
  CASE g \in {"ax", "me"} -> ErReduce(p.f, s, p.ax)
    [] g = "axn" -> ErNat(s, p.ax) /\ (f = "percentile" => p.k \in 0..100 /\ ErDim(s, p.ax) > 0)
    [] g = "diff" -> ErAxis(s, p.ax) /\ p.k >= 0
    [] g = "repeat" -> ErAxis(s, p.ax) /\ p.k >= 0
    [] g = "concatenate" -> \A i \in 1..Len(A) : ErJoin(s, A[i].s, p.ax)
    [] g = "stack" -> (\A i \in 1..Len(A) : A[i].s = s) /\ p.ax >= 0 /\ p.ax <= n
    [] g = "take" -> ErNat(s, p.ax) /\ ErIn(p.idx, ErDim(s, p.ax))
    [] g = "delete" -> ErAxis(s, p.ax) /\ p.k >= -ErDim(s, p.ax) /\ p.k < ErDim(s, p.ax)
    [] g = "insert" -> ErAxis(s, p.ax) /\ p.k >= -ErDim(s, p.ax) /\ p.k <= ErDim(s, p.ax)
    [] g = "split" -> ErNat(s, p.ax) /\ p.k >= 1 /\ (f = "split" => ErEven(ErDim(s, p.ax), p.k))
    [] g = "nsplit" -> (CASE f = "vsplit" -> n >= 2 /\ ErEven(s[1], p.k)
                         [] f = "hsplit" -> n >= 1 /\ ErEven(s[IF n = 1 THEN 1 ELSE 2], p.k)
                         [] f = "dsplit" -> n >= 3 /\ ErEven(s[3], p.k))
    [] g = "compress" -> ErNat(s, p.ax) /\ \A i \in 1..Len(p.idx) : p.idx[i] # 0 => i <= ErDim(s, p.ax)
    [] g = "partition" -> ErAxis(s, p.ax) /\ p.k >= 0 /\ p.k < ErDim(s, p.ax)
    [] g = "expand_dims" -> AxisOK(p.ax, n + 1)
    [] g = "swapaxes" -> ErNat(s, p.ax) /\ ErNat(s, p.k)
    [] g = "moveaxis" -> ErAxis(s, p.ax) /\ ErAxis(s, p.k)
    [] g = "rollaxis" -> ErAxis(s, p.ax) /\ p.k >= -n /\ p.k <= n
    [] g = "permute" -> ErPermOf(p.idx, n)
    [] g = "reshape" -> ReshapeOK(p.s, Size(s))
    [] g = "broadcast_to" -> (\A i \in 1..Len(p.s) : p.s[i] >= 0) /\ CanBcastTo(s, p.s)
    [] g = "rot90" -> ErAxis(s, p.ax) /\ ErAxis(s, p.k) /\ NormAxis(p.ax, n) # NormAxis(p.k, n)
    [] g = "flatidx" -> ErIn(p.idx, Size(s))
    [] g = "firstidx" -> n >= 1 /\ ErIn(p.idx, s[1])
    [] g = "mask" -> p.s = s
    [] g = "unravel" -> \A i \in 1..Len(p.idx) : p.idx[i] >= 0 /\ p.idx[i] < Size(p.s)
    [] g = "ravelmi" -> ErFlatIdx(p.s, p.mi)
    [] g = "choose" -> p.k >= 1 /\ \A i \in 1..Len(p.idx) : p.idx[i] >= 0 /\ p.idx[i] < p.k
    [] g = "bcast" -> BcastAll([i \in 1..Len(A) |-> A[i].s])[1]
    [] g = "matmul" -> ErMat(s, t)
    [] g = "dot" -> n = 0 \/ Len(t) = 0 \/ s[n] = t[IF Len(t) = 1 THEN 1 ELSE Len(t) - 1]
    [] g = "inner" -> s[n] = t[Len(t)]
    [] g = "tensordot" -> /\ p.k <= n /\ p.k <= Len(t)
                          /\ \A i \in 1..p.k : s[n - p.k + i] = t[i]
    [] g = "solve" -> n = 2 /\ s[1] = s[2] /\ Len(t) \in {1, 2} /\ t[1] = s[1]
    [] g = "cross" -> s = <<3>> /\ t = <<3>>
    [] g = "hstack" -> \A i \in 1..Len(A) : ErJoin(s, A[i].s, IF n = 1 THEN 0 ELSE 1)
    [] g = "vstack" -> \A i \in 1..Len(A) : ErJoin(ErAtl2(s), ErAtl2(A[i].s), 0)
    [] g = "dstack" -> \A i \in 1..Len(A) : ErJoin(ErAtl3(s), ErAtl3(A[i].s), 2)
    [] g = "column_stack" -> \A i \in 1..Len(A) : ErJoin(ErCol(s), ErCol(A[i].s), 1)
    [] g = "bincount" -> n = 1 /\ IsIntT(A[1].d) /\ \A i \in 1..Len(A[1].v) : ErSign(A[1].v[i]) >= 0
    [] g = "interp" -> Len(t) = 1 /\ A[3].s = t /\ t[1] > 0
    [] g = "searchsorted" -> n = 1
    [] g = "count" -> p.k >= 0
    [] g = "step" -> p.k # 0
    [] g = "bins" -> p.k >= 1
    [] g = "sizes" -> \A i \in 1..Len(p.s) : p.s[i] >= 0
    [] g = "percent" -> p.k >= 0 /\ p.k <= (IF f = "quantile" THEN 4 ELSE 100) /\ Size(s) > 0
    [] g = "signal" -> n = 1 /\ Len(t) = 1 /\ s[1] > 0 /\ t[1] > 0
    [] g = "matpow" -> n = 2 /\ s[1] = s[2] /\ p.k >= 0
    [] g = "unpack" -> A[1].d = "uint8"
    [] g = "nonempty" -> Size(s) > 0
    [] g = "one" -> Size(s) = 1
    [] g = "same" -> s = t
    [] g = "upto" -> n <= p.k
    [] g = "exactly" -> n = p.k
    [] g = "atleast" -> n >= p.k
    [] g = "square" -> n = 2 /\ s[1] = s[2]
    [] g = "dtype" -> p.nm \in ErDtypes
    [] g = "einsum" -> EinOK(A, p.labs, p.out)
    [] g = "numeric" -> \A i \in 1..Len(A) : A[i].d # "str"
    [] g = "bits" -> Kind(A[1].d) # "f" /\ Kind(A[2].d) # "f"
=============================================================================
