-------------------------------- MODULE MCSim --------------------------------
(***************************************************************************)
(* Exhaustive small model of the simulator.  All validity patterns of the  *)
(* log, all warm-up lengths, control classes, injection settings and       *)
(* metadata masks for N objects over T slots; slot contents are distinct   *)
(* tags so that any mix-up of object, time, field or source is visible.    *)
(* Every transition is printed and replayed in the real code.              *)
(***************************************************************************)
EXTENDS Waymax, TLC, Json
CONSTANTS N, T, EMIT

VARIABLES log, meta, cfg, sim, t
vars == <<log, meta, cfg, sim, t>>

Tag(base, o, k) == K * (base + 7 * o + 31 * k)
LogSlot(o, k, v) == <<Tag(1, o, k), Tag(200, o, k), Tag(400, o, k), Tag(600, o, k), Tag(800, o, k),
                      o + 2 * k, v, 100000 * k + o, K * (2 + o), K * (1 + o), K * (3 + o)>>
\* the action given to object o at clock k: displacement tags
Act(o, k) == <<K * (3 + o) + k, K * (5 + 2 * o) + k, 3 + o + k>>
Model == [kind |-> "delta", dtinv |-> 8]

Bits(n, m) == [1..n -> {0, 1}]
Init ==
  /\ \E vb \in [1..N -> [1..T -> {0, 1}]] :
        log = [o \in 1..N |-> [k \in 1..T |-> LogSlot(o, k, vb[o][k])]]
  /\ \E s \in 1..N, m \in [1..N -> {0, 1}] :
        meta = [sdc |-> [o \in 1..N |-> IF o = s THEN 1 ELSE 0], modeled |-> m,
                valid |-> [o \in 1..N |-> IF \E k \in 1..T : SVALID(log[o][k]) = 1 THEN 1 ELSE 0]]
  /\ \E w \in 1..T, c \in {"SDC", "MODELED", "VALID"}, i \in {0, 1} :
        \* the modelled mask only matters for class MODELED, the ego for SDC
        /\ (c # "MODELED" => \A o \in 1..N : meta.modeled[o] = 0)
        /\ (c # "SDC" => meta.sdc[1] = 1)
        /\ cfg = [w |-> w, cls |-> c, inject |-> i]
  /\ sim = ResetSim(log, cfg.w)
  /\ t = ResetClock(cfg.w)

Ctl == ControlSet(cfg.cls, cfg.inject, meta, log, cfg.w)
Upd == [o \in 1..N |-> Update(Model, sim[o][t + 1], Act(o, t))]

Emit == EMIT = 0 \/
  PrintT("@@" \o ToJson([w |-> cfg.w, c |-> cfg.cls, i |-> cfg.inject, m |-> meta, t |-> t',
          lv |-> [o \in 1..N |-> [k \in 1..T |-> SVALID(log[o][k])]], sim |-> sim']))

Step == /\ Remaining(T, t) > 0
        /\ sim' = StepSim(sim, log, t, Ctl, Upd, cfg.inject)
        /\ t' = t + 1
        /\ UNCHANGED <<log, meta, cfg>>
        /\ Emit
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* ---------------------------- properties ------------------------------ *)
\* C01
WarmupIsLog == \A o \in 1..N, k \in 1..cfg.w : sim[o][k] = log[o][k]
FutureBlank == \A o \in 1..N, k \in 1..T : k > t + 1 => sim[o][k] = Blank
\* C02
AppendOnly == [][ /\ t' = t + 1
                  /\ \A o \in 1..N, k \in 1..T : k # t + 2 => sim'[o][k] = sim[o][k]
                  /\ UNCHANGED <<log, meta, cfg>> ]_vars
\* C03
UncontrolledReplay == \A o \in (1..N) \ Ctl, k \in 1..(t + 1) : Pose(sim[o][k]) = Pose(log[o][k])
ControlledObey == [][ \A o \in Ctl : /\ SX(sim'[o][t + 2]) - SX(sim[o][t + 1]) = Act(o, t)[1]
                                     /\ SY(sim'[o][t + 2]) - SY(sim[o][t + 1]) = Act(o, t)[2] ]_vars
TimestampsFromLog == \A o \in 1..N, k \in 1..(t + 1) : STS(sim[o][k]) = STS(log[o][k])
BodyCarried == \A o \in 1..N, k \in (cfg.w)..(t + 1) : Body(sim[o][k]) = Body(sim[o][cfg.w])
\* C04
NoResurrection == cfg.inject = 0 =>
   \A o \in 1..N, k \in (cfg.w)..t : SVALID(sim[o][k]) = 0 => SVALID(sim[o][k + 1]) = 0
ControlledPersist ==
   \A o \in Ctl, k \in (cfg.w)..t : SVALID(sim[o][k]) = 1 => SVALID(sim[o][k + 1]) = 1
UncontrolledFollowsLog ==
   \A o \in (1..N) \ Ctl, k \in (cfg.w + 1)..(t + 1) :
      SVALID(sim[o][k]) = 1 => SVALID(log[o][k]) = 1
InjectionFollowsLog == cfg.inject = 1 =>
   \A o \in (1..N) \ Ctl, k \in (cfg.w + 1)..(t + 1) : SVALID(sim[o][k]) = SVALID(log[o][k])
\* C05: the set read from the simulated history never drifts from the set at reset
ControlStable ==
   (cfg.cls = "VALID" /\ cfg.inject = 0) => Ctl = {o \in 1..N : SVALID(sim[o][cfg.w]) = 1}
\* C06
ClockInRange == t >= cfg.w - 1 /\ t <= T - 1 /\ Remaining(T, t) >= 0
ExactLength == (Done(T, t) = 1) <=> ~ ENABLED Step
Finishes == <>(Done(T, t) = 1)
StepsTaken == Remaining(T, t) = (T - cfg.w) - (t - (cfg.w - 1))
=============================================================================
