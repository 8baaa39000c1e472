-------------------------------- MODULE Pure --------------------------------
(* Functions without side effects: dispatch to the family modules.          *)
EXTENDS Print
PureApply(e, A) ==
  CASE e.op \in ElemOps -> ElemApply(e, A)
    [] e.op \in ReduceOps -> ReduceApply(e, A)
    [] e.op \in SortOps -> SortDispatch(e, A)
    [] e.op \in RearrOps -> RearrDispatch(e, A)
    [] e.op = "contract" -> ContractApply(A, e.p)
    [] e.op \in ConvertOps -> ConvertApply(e, A)
    [] e.op = "grid" -> GridApply(e, A)
    [] e.op = "print" -> PrintApply(A[1], e.p)
    [] e.op = "stat" -> StatApply(A, e.p)
    [] e.op \in DateOps -> DateApply(e, A)
    [] e.op \in TextOps -> TextApply(e, A)
    [] OTHER -> Err
(* Calls whose result is specified by a relation: RelPre says whether the   *)
(* call is valid, RelPost whether the observed results R are admissible.    *)
RelOps == SortRel \cup LaRel \cup StatRel \cup ErOps
RelPre(e, A) ==
  CASE e.op \in SortRel -> SortRelPre(e, A)
    [] e.op \in LaRel -> LaRelPre(e, A)
    [] e.op \in StatRel -> StatRelPre(e, A)
    [] e.op \in ErOps -> ErPre(A, e.p)
RelPost(e, A, R) ==
  CASE e.op \in SortRel -> SortRelPost(e, A, R)
    [] e.op \in LaRel -> LaRelPost(e, A, R)
    [] e.op \in StatRel -> StatRelPost(e, A, R)
    [] e.op \in ErOps -> R = <<>>       \* the value is not looked at here
=============================================================================
