------------------------------- MODULE MCBatch -------------------------------
(***************************************************************************)
(* A batch of scenarios as the environments run it: one shared clock and   *)
(* one program for all of them.  Checked against every scenario running    *)
(* alone with a clock of its own, and against a twin batch in which every  *)
(* scenario but the first has been exchanged (self-composition): the batch *)
(* is the pointwise lift of the single scenario and nothing flows from one *)
(* scenario to another.                                                    *)
(***************************************************************************)
EXTENDS Waymax
CONSTANTS T
N == 1
Bs == 1..2
VARIABLES logs, cfg, clock, sims, solo, twinlogs, twins
vars == <<logs, cfg, clock, sims, solo, twinlogs, twins>>

LogSlot(tag, k, v) == <<K * (tag + 3 * k), K * tag, 0, K * k, 0, k, v, 100 * k + tag, K * tag, K, K>>
MkLog(tag, vb) == [o \in 1..N |-> [k \in 1..T |-> LogSlot(tag, k, vb[k])]]
Acts == {<<K, -K, 3>>, <<-2 * K, 0, 1>>}
Model == [kind |-> "delta", dtinv |-> 10]
Pats == [1..T -> {0, 1}]

Ctl(log) == ControlSet(cfg.cls, cfg.inject, [sdc |-> <<1>>, modeled |-> <<0>>, valid |-> <<1>>], log, cfg.w)
Adv(sim, log, t, a) ==
  StepSim(sim, log, t, Ctl(log), [o \in 1..N |-> Update(Model, sim[o][t + 1], a)], cfg.inject)

Init ==
  /\ \E p, q \in Pats : logs = [b \in Bs |-> MkLog(b, IF b = 1 THEN p ELSE q)]
  /\ \E q \in Pats : twinlogs = [b \in Bs |-> IF b = 1 THEN logs[1] ELSE MkLog(9, q)]
  /\ \E w \in 1..T, c \in {"SDC", "VALID"}, i \in {0, 1} : cfg = [w |-> w, cls |-> c, inject |-> i]
  /\ clock = ResetClock(cfg.w)
  /\ sims = [b \in Bs |-> ResetSim(logs[b], cfg.w)]
  /\ twins = [b \in Bs |-> ResetSim(twinlogs[b], cfg.w)]
  /\ solo = [b \in Bs |-> [t |-> ResetClock(cfg.w), sim |-> ResetSim(logs[b], cfg.w)]]
Next ==
  /\ Remaining(T, clock) > 0
  /\ \E a \in [Bs -> Acts], other \in Acts :
       /\ sims' = [b \in Bs |-> Adv(sims[b], logs[b], clock, a[b])]
       /\ solo' = [b \in Bs |-> [t |-> solo[b].t + 1, sim |-> Adv(solo[b].sim, logs[b], solo[b].t, a[b])]]
       \* the exchanged scenario of the twin receives any action
       /\ twins' = [b \in Bs |-> Adv(twins[b], twinlogs[b], clock, IF b = 1 THEN a[1] ELSE other)]
  /\ clock' = clock + 1
  /\ UNCHANGED <<logs, cfg, twinlogs>>

Lift == \A b \in Bs : sims[b] = solo[b].sim /\ clock = solo[b].t
NonInterference == twins[1] = sims[1]
=============================================================================
