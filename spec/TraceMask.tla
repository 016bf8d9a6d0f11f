------------------------------ MODULE TraceMask ------------------------------
(* Control-mask selection and rejection of unsupported object classes. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
Mask(e) == CASE e.cls = "SDC" -> e.sdc [] e.cls = "MODELED" -> e.modeled [] e.cls = "VALID" -> e.valid
Bad == LET e == Traces[tr].ev[l] IN
  IF e.cls \in {"SDC", "MODELED", "VALID"}
  THEN C("class.accepted", e.out = "ok")
       \cup C("class.mask", (e.via = "mask" /\ e.out = "ok") => e.got = Mask(e))
  ELSE C("class.rejected", e.out = "ValueError")
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
