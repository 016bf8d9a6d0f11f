----------------------------- MODULE TraceBatch -----------------------------
(***************************************************************************)
(* Judges recorded executions of the same scenarios alone and inside       *)
(* batches.  An event holds what one scenario showed alone (a) and as a    *)
(* member of a batch (b): counted values (x), real values in 1/1000 (v).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
Abs(a) == IF a < 0 THEN -a ELSE a
OFFV == 1073741823
\* compiled arithmetic may round differently: 2/1000 plus 50 ppm
Close(a, b) == a = b \/ (a # OFFV /\ b # OFFV /\ Abs(a - b) <= 2 + Abs(a) \div 20000)
SameLen(e) == Len(e.ax) = Len(e.bx) /\ Len(e.av) = Len(e.bv)
LiftBad(e) ==
  IF e.out # "ok" THEN {"lift." \o e.what \o ".raised"}
  ELSE IF ~SameLen(e) THEN {"lift." \o e.what \o ".shape"}
  ELSE C("lift." \o e.what, e.ax = e.bx /\ \A i \in 1..Len(e.av) : Close(e.av[i], e.bv[i]))
\* the same compiled program, the other scenarios exchanged: bit-identical
IsolatedBad(e) == C("isolated." \o e.what, e.a = e.b)
Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "lift" -> LiftBad(e) [] e.op = "isolated" -> IsolatedBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
