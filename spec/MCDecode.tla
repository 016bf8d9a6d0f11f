------------------------------ MODULE MCDecode ------------------------------
(* Recording, decoding, simulating and exporting as one machine: the       *)
(* recorder appends a step for every object, the record is cut at the      *)
(* current step, decoded; the simulator then advances writing its own      *)
(* steps, and is exported with the history length of the record.           *)
EXTENDS Decode, TLC, Json
CONSTANTS Steps, Cur, Objs
VARIABLES log, rec, dec, sim, out, phase
vars == <<log, rec, dec, sim, out, phase>>
\* a recorded sample: validity, identity x, size (invalid samples carry -1)
Sample(o, t) == {<<1, 10 * o + t, 2>>, <<1, 10 * o + t, 5>>, <<0, -1, -1>>}
Init == log = [o \in 1..Objs |-> <<>>] /\ rec = <<>> /\ dec = <<>> /\ sim = <<>> /\ out = <<>> /\ phase = "record"
Record == /\ phase = "record" /\ Len(log[1]) < Steps
          /\ \E s \in [1..Objs -> {1, 2, 3}] :
               log' = [o \in 1..Objs |-> LET t == Len(log[o]) + 1
                          IN Append(log[o], CASE s[o] = 1 -> <<1, 10 * o + t, 2>> [] s[o] = 2 -> <<1, 10 * o + t, 5>> [] s[o] = 3 -> <<0, -1, -1>>)]
          /\ UNCHANGED <<rec, dec, sim, out, phase>>
Line(o, k) == [t \in 1..Steps |-> log[o][t][k]]
Cut == /\ phase = "record" /\ Len(log[1]) = Steps /\ phase' = "cut"
       /\ rec' = [o \in 1..Objs |-> [k \in 1..3 |-> <<SubSeq(Line(o, k), 1, Cur - 1), <<Line(o, k)[Cur]>>, SubSeq(Line(o, k), Cur + 1, Steps)>>]]
       /\ UNCHANGED <<log, dec, sim, out>>
Decode1 == /\ phase = "cut" /\ phase' = "sim"
           /\ dec' = [o \in 1..Objs |-> LET v == Cat(rec[o][1][1], rec[o][1][2], rec[o][1][3])
                                             x == Cat(rec[o][2][1], rec[o][2][2], rec[o][2][3])
                                             s == Cat(rec[o][3][1], rec[o][3][2], rec[o][3][3])
                                         IN [v |-> v, x |-> x, size |-> Mean(s, v)]]
           /\ sim' = [t |-> 1, v |-> [o \in 1..Objs |-> FirstOnly(dec'[o].v)], x |-> [o \in 1..Objs |-> FirstOnly(dec'[o].x)]]
           /\ UNCHANGED <<log, rec, out>>
\* the simulator replays the log up to the current step of the record
Advance == /\ phase = "sim" /\ sim.t < Cur
           /\ sim' = [t |-> sim.t + 1,
                      v |-> [o \in 1..Objs |-> [sim.v[o] EXCEPT ![sim.t + 1] = dec[o].v[sim.t + 1]]],
                      x |-> [o \in 1..Objs |-> [sim.x[o] EXCEPT ![sim.t + 1] = dec[o].x[sim.t + 1]]]]
           /\ UNCHANGED <<log, rec, dec, out, phase>>
Export1 == /\ phase = "sim" /\ sim.t = Cur /\ phase' = "done"
           /\ out' = [o \in 1..Objs |-> [v |-> Split(sim.v[o], Cur, Cur - 1), x |-> Split(sim.x[o], Cur, Cur - 1)]]
           /\ UNCHANGED <<log, rec, dec, sim>>
Next == Record \/ Cut \/ Decode1 \/ Advance \/ Export1 \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Faithful == phase \in {"sim", "done"} => \A o \in 1..Objs : dec[o].v = Line(o, 1) /\ dec[o].x = Line(o, 2)
\* no object's size depends on another object or on invalid samples
SizeOK == phase \in {"sim", "done"} => \A o \in 1..Objs :
   LET m == dec[o].size IN IF m[2] = 0 THEN m[1] = 0 ELSE m[1] >= 2 * m[2] /\ m[1] <= 5 * m[2]
NoFuture == phase = "sim" => \A o \in 1..Objs : \A t \in (sim.t + 1)..Steps : sim.v[o][t] = 0 /\ sim.x[o][t] = 0
\* exporting after a replay gives back the recorded past and current step
RoundTrip == phase = "done" => \A o \in 1..Objs :
   /\ out[o].v.past = rec[o][1][1] /\ out[o].v.current = rec[o][1][2]
   /\ out[o].x.past = rec[o][2][1] /\ out[o].x.current = rec[o][2][2]
Export == phase # "done" \/ PrintT("@@" \o ToJson([rec |-> rec, dec |-> dec, out |-> out]))
=============================================================================
