--------------------------- MODULE TracePlanMetrics ---------------------------
(***************************************************************************)
(* Metrics and reward of the planning environment: the ego's entry of the  *)
(* multi-agent result for the same state.  Values 1/10000.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
Near(a, b, tol) == a - b \in -tol..tol

\* entry of the ego; metrics about the ego alone have a single entry
Pick(v, ego) == IF Len(v) = 1 THEN v[1] ELSE v[ego]
\* nothing chose the motion into the first state of an episode
FirstState(e) == e.t = e.w - 1
Want(e) == IF e.name = "kinematic_infeasibility" /\ FirstState(e) THEN [value |-> 0, valid |-> 0]
           ELSE [value |-> Pick(e.value, e.ego), valid |-> Pick(e.valid, e.ego)]
MetricBad(e) ==
     C("pmetric.shape", Len(e.out) = 1 /\ Len(e.ok) = 1)
  \cup (IF Len(e.out) # 1 \/ Len(e.ok) # 1 THEN {} ELSE
        C("pmetric.valid", e.ok[1] = Want(e).valid)
        \cup C(IF FirstState(e) /\ e.name = "kinematic_infeasibility" THEN "pmetric.first_kinematic" ELSE "pmetric.value", Near(e.out[1], Want(e).value, 2)))
NamesBad(e) == C("pmetric.names", e.got = e.want)

RECURSIVE Sum(_, _, _)
Sum(ms, i, ego) == IF i > Len(ms) THEN 0
  ELSE (IF Pick(ms[i].valid, ego) = 1 THEN ms[i].w4 * Pick(ms[i].value, ego) ELSE 0) + Sum(ms, i + 1, ego)
RewardBad(e) ==
     C("preward.shape", Len(e.out) = 1 /\ e.dtype = "float32")
  \cup C("preward.value", Len(e.out) = 1 => Near(4 * e.out[1], IF e.enabled = 1 THEN Sum(e.ms, 1, e.ego) ELSE 0, 60))

Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "pmetric" -> MetricBad(e) [] e.op = "names" -> NamesBad(e) [] e.op = "preward" -> RewardBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
