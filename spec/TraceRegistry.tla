---------------------------- MODULE TraceRegistry ----------------------------
(* Running a set of metrics: names and values against each metric alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in DOMAIN s}
Close(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] - b[i] \in -3..3
Bad == LET e == Traces[tr].ev[l] IN
     C("metrics.names", Range(e.keys) = Range(e.request) /\ Len(e.keys) = Cardinality(Range(e.request)))
  \cup C("metrics.values", \A n \in Range(e.request) \cap Range(e.keys) \cap DOMAIN e.alone :
            e.got[n].valid = e.alone[n].valid /\ Close(e.got[n].value, e.alone[n].value))
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
