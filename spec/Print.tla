-------------------------------- MODULE Print -------------------------------
(***************************************************************************)
(* The text of an array (repr, str): read back by the rules of Python, the *)
(* brackets show the shape and every element in place.  Arrays of more     *)
(* than 1000 elements show the first and last three positions of every     *)
(* axis longer than six, with an ellipsis for what is left out.            *)
(***************************************************************************)
EXTENDS Errors

PrLong(s) == Size(s) > 1000
\* positions of an axis of n elements that are shown
PrShown(s, n) == IF PrLong(s) /\ n > 6 THEN <<0, 1, 2, n - 3, n - 2, n - 1>> ELSE [i \in 1..n |-> i - 1]
PrShape(s) == [k \in 1..Len(s) |-> Len(PrShown(s, s[k]))]
\* number of ellipses: one for every printed row that leaves something out
PrDots(s) ==
  LET t == PrShape(s)
      RECURSIVE go(_, _, _)
      go(k, rows, acc) == IF k > Len(s) THEN acc
                          ELSE go(k + 1, rows * t[k], IF PrLong(s) /\ s[k] > 6 THEN acc + rows ELSE acc)
  IN IF Size(s) = 0 THEN 0 ELSE go(1, 1, 0)
PrValues(A) ==
  IF Size(A.s) = 0 THEN Arr(<<0>>, "py", <<>>)
  ELSE IF ~PrLong(A.s) THEN Arr(A.s, "py", A.v)
  ELSE Gather([A EXCEPT !.d = "py"], PrShape(A.s), LAMBDA ix : [k \in 1..Len(ix) |-> PrShown(A.s, A.s[k])[ix[k] + 1]])
\* repr also names the dtype unless reading the numbers gives it, and the shape when something is left out
PrintApply(A, p) ==
  LET r == RA(PrValues(A))
      dots == RA(Arr(<<1>>, "py", <<I(PrDots(A.s))>>))
      dt == RA(Arr(<<>>, A.d, <<IF Kind(A.d) = "c" THEN Cx(Zero, Zero) ELSE Zero>>))
      sh == RA(Arr(<<Len(A.s)>>, "py", [k \in 1..Len(A.s) |-> I(A.s[k])]))
  IN Ok(IF p.f = "str" THEN <<r, dots>> ELSE IF PrLong(A.s) THEN <<r, dots, dt, sh>> ELSE <<r, dots, dt>>)
=============================================================================
