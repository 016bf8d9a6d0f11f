------------------------------ MODULE Rollout ------------------------------
(***************************************************************************)
(* A rollout as a behaviour of the episode: reset, then n times            *)
(*    select action -> score state and action -> step,                     *)
(* recorded entry by entry; the last entry closes it with a null action.   *)
(* An entry is [t, sim, ctr, act, av, ...]; ctr is the actor's own state.  *)
(***************************************************************************)
EXTENDS Planning

RowOf(v, o) == IF Len(v) = 1 THEN v[1] ELSE v[o]

\* ------------------------------- actors --------------------------------
\* "counter": reads another object's pose, its parameter and its counter
\* "random": any action;  "expert": the action carrying sim to the next log slot
ActorInit(x, sim, t) == AgentInit(x.actor, sim, t)
ActorNext(x, c, sim, t) == AgentNext(x.actor, c, sim, t)
ActorAct(x, c, sim, t, o) ==
  IF x.cfg.model.kind = "state" THEN AgentOut(x.actor, c, sim, t, o)
  ELSE <<x.actor.px + 16 * c, x.actor.py - 16 * c, SVALID(sim[o][t + 1]) * 16>>
ExpertAct(x, sim, t, o) ==
  LET a == sim[o][t + 1]  b == x.log[o][t + 2] IN
  IF x.cfg.model.kind = "state" THEN Pose(b)
  ELSE IF SVALID(a) = 1 /\ SVALID(b) = 1 THEN <<SX(b) - SX(a), SY(b) - SY(a), SYAW(b) - SYAW(a)>>
  ELSE <<0, 0, 0>>
ExpertOk(x, sim, t, o) ==
  IF x.cfg.model.kind = "state" THEN SVALID(x.log[o][t + 2]) ELSE SVALID(sim[o][t + 1]) * SVALID(x.log[o][t + 2])

\* ------------------------------ next state ------------------------------
Ctl(x) == IF x.cfg.kind = "planning" THEN {Ego(x.meta)} ELSE ControlSet(x.cfg.cls, x.cfg.inject, x.meta, x.log, x.cfg.w)
NextSim(x, sim, t, act) ==
  LET upd == [o \in Objs(x.log) |-> Update(x.cfg.model, sim[o][t + 1], RowOf(act, o))]
  IN StepSim(sim, x.log, t, Ctl(x), upd, x.cfg.inject)

\* --------------------------- entry by entry -----------------------------
ObsOf(sim, t) == [t |-> t, x |-> [o \in DOMAIN sim |-> SX(sim[o][t + 1])]]
MetricOf(sim, t) == [o \in DOMAIN sim |-> <<SX(sim[o][t + 1]), SVALID(sim[o][t + 1])>>]
\* class membership for rewards is by object metadata
RewardSet(x) == CASE x.cfg.kind = "planning" -> {Ego(x.meta)}
                  [] x.cfg.cls = "VALID" -> {o \in Objs(x.log) : x.meta.valid[o] = 1}
                  [] OTHER -> Ctl(x)
RewardOf(x, sim, t, o) == IF o \in RewardSet(x) /\ SVALID(sim[o][t + 1]) = 1 THEN x.cfg.weight * SX(sim[o][t + 1]) ELSE 0
=============================================================================
