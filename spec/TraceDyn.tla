------------------------------- MODULE TraceDyn -------------------------------
(***************************************************************************)
(* Judges recorded dynamics-model calls, one event per object.             *)
(*  fwd   : update computed from (cur, act)                                *)
(*  inv   : action inferred between two slots                              *)
(*  round : forward(inverse) against the logged next slot                  *)
(***************************************************************************)
EXTENDS DynRules, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
Bad == LET e == Traces[tr].ev[l] IN
       CASE e.op = "fwd" -> FwdBad(e) [] e.op = "inv" -> InvBad(e) [] e.op = "round" -> RoundBad(e)
NFeasible == LET e == Traces[tr].ev[l] IN e.op = "round" /\ Feasible(e)
Report == l = 0 \/ LET b == Bad IN
   /\ (b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b])))
   /\ (~NFeasible \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> {}, feas |-> 1])))
=============================================================================
