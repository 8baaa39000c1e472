-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  File TRACES (ndjson) holds one recorded execution    *)
(* per line: [id, ev], ev a sequence of events                             *)
(*   [op, a (operand handles), p (parameters), err ("" or exception class),*)
(*    obs (what was observed after the call: every new handle and every    *)
(*         handle whose observation changed: [i, k, s, d, v])]             *)
(* Each trace is one behaviour (one initial state per trace); an event     *)
(* that Apply does not explain is reported and ends the trace.             *)
(***************************************************************************)
EXTENDS Rumpy, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, heap, hs, fs, rng, memo, good
vars == <<tid, pos, heap, hs, fs, rng, memo, good>>

Ordinary == {"ValueError", "IndexError", "TypeError", "KeyError", "OverflowError", "ZeroDivisionError",
             "RuntimeError", "NotImplementedError", "LinAlgError", "OSError", "FileNotFoundError",
             "AxisError", "EOFError", "MemoryError", "BadZipFile"}

\* allocate the results of r; obs supplies wildcard dtypes
RECURSIVE Alloc(_, _, _, _, _)
Alloc(hp, hh, res, i, e) ==
  IF i > Len(res) THEN <<hp, hh>>
  ELSE LET x == res[i]
           od == LET O == {k \in 1..Len(e.obs) : e.obs[k].i = Len(hh) + 1} IN
                 IF O = {} THEN "?" ELSE e.obs[CHOOSE k \in O : TRUE].d
       IN CASE x.t = "view" -> Alloc(hp, Append(hh, [k |-> "a", h |-> x.h]), res, i + 1, e)
            [] x.t = "sc" -> Alloc(hp, Append(hh, [k |-> "s", v |-> x.v]), res, i + 1, e)
            [] x.t = "arr" ->
                 Alloc(Append(hp, x.a.v),
                       Append(hh, [k |-> "a", h |-> Contig(Len(hp) + 1, x.a.s, IF x.a.d = "*" THEN od ELSE x.a.d)]),
                       res, i + 1, e)

ObsOK(c, o) == /\ c.s = o.s
               /\ (o.k = "s" \/ c.d = "py" \/ c.d = o.d)
               /\ c.v = o.v

\* what the specification makes of event e in state st: either the state after it
\* or the reason why e is not a behaviour of the specification
Bad(why, x) == [ok |-> FALSE, why |-> why, x |-> x]
Explain(e, st) ==
  LET r == TLCEval(Apply(e, st))
      good0 == r.err = ""
      al == TLCEval(IF good0 THEN Alloc(IF r.w THEN r.heap ELSE st.heap, st.hs, r.res, 1, e) ELSE <<st.heap, st.hs>>)
      st2 == [heap |-> al[1], hs |-> al[2]]
      nh == Len(st.hs)
      nn == Len(al[2])
      obsbad == SelectIdx(e.obs, LAMBDA k : ~(e.obs[k].i <= nn /\ ObsOK(Contents(st2, e.obs[k].i), e.obs[k])))
      \* the recorder observes every new handle and every handle whose contents changed
      silent == IF good0 /\ r.w
                THEN LET oi == {e.obs[k].i : k \in 1..Len(e.obs)} IN
                     {j \in 1..nh : /\ j \notin oi
                                    /\ st.hs[j].k = "a"
                                    /\ st.heap[st.hs[j].h.b] # al[1][st.hs[j].h.b]
                                    /\ Contents(st2, j) # Contents(st, j)}
                ELSE {}
      unseen == {j \in (nh + 1)..nn : \A k \in 1..Len(e.obs) : e.obs[k].i # j}
  IN IF ~(IF good0 THEN e.err = "" ELSE IF r.err = "E" THEN e.err \in Ordinary ELSE e.err = r.err)
     THEN Bad("error status", [err |-> r.err, got |-> e.err,
                               res |-> [i \in 1..Len(r.res) |-> Contents(st2, nh + i)]])
     ELSE IF e.n # nn THEN Bad("number of results", [n |-> nn - nh])
     ELSE IF obsbad # <<>>
     THEN LET k == obsbad[1] IN
          Bad("observation", [i |-> e.obs[k].i, want |-> Contents(st2, e.obs[k].i), got |-> e.obs[k]])
     ELSE IF silent \cup unseen # {}
     THEN LET j == CHOOSE j \in silent \cup unseen : TRUE IN
          Bad("handle should have changed", [i |-> j, want |-> Contents(st2, j)])
     ELSE [ok |-> TRUE, heap |-> al[1], hs |-> al[2],
           fs |-> IF good0 /\ e.op \in FsOps THEN FsApply(e, st).fs ELSE st.fs,
           rng |-> IF good0 /\ e.op \in RandOps THEN RandNext(e, RandOperands(e, st), RandResults(e, st), st.rng) ELSE st.rng,
           memo |-> IF e.op = "call" THEN Append(st.memo, [key |-> CallKey(e, st), out |-> Outcome(e)])
                   ELSE IF e.op = "big" THEN Append(st.memo, [key |-> BigKey(e), out |-> BigOut(e)]) ELSE st.memo]

Step ==
  /\ good
  /\ pos <= Len(Traces[tid].ev)
  /\ \E q \in {Explain(Traces[tid].ev[pos], [heap |-> heap, hs |-> hs, fs |-> fs, rng |-> rng, memo |-> memo])} :
       IF q.ok
       THEN heap' = q.heap /\ hs' = q.hs /\ fs' = q.fs /\ rng' = q.rng /\ memo' = q.memo /\ pos' = pos + 1 /\ UNCHANGED <<tid, good>>
       ELSE /\ PrintT("MISMATCH " \o ToJson([id |-> Traces[tid].id, pos |-> pos, op |-> Traces[tid].ev[pos].op,
                                              why |-> q.why, exp |-> q.x]))
            /\ good' = FALSE /\ UNCHANGED <<tid, heap, hs, fs, rng, memo, pos>>

Init == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ heap = <<>> /\ hs = <<>> /\ fs = <<>> /\ rng = [g |-> <<>>, m |-> <<>>] /\ memo = <<>> /\ good = TRUE
Next == Step
Spec == Init /\ [][Next]_vars
TraceView == <<tid, pos, good>>
\* every cell a handle designates lies inside its buffer (the newest handle suffices: handles never change)
HandlesInBounds == \A i \in (IF Len(hs) > 2 THEN Len(hs) - 1 ELSE 1)..Len(hs) :
                     hs[i].k = "a" => InBounds(hs[i].h, Len(heap[hs[i].h.b]))
=============================================================================
