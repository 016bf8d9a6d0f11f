------------------------------ MODULE TraceBrax ------------------------------
(***************************************************************************)
(* Judges recorded runs of the functional episode wrapper: each returned   *)
(* time step against the wrapped environment's own transition system.      *)
(***************************************************************************)
EXTENDS Rollout, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
Bit(b) == IF b THEN 1 ELSE 0

Rewards(x, sim, t) == IF x.cfg.kind = "planning" THEN <<RewardOf(x, sim, t, Ego(x.meta))>>
                      ELSE [o \in Objs(x.log) |-> RewardOf(x, sim, t, o)]
\* a user environment may end an episode: here when the ego's x passes a bar
Terminated(x, sim, t) == x.cfg.term = 1 /\ SX(sim[Ego(x.meta)][t + 1]) > x.cfg.bar
ResetBad(x, e) ==
     C("brax.reset.state", e.t = ResetClock(x.cfg.w) /\ e.sim = ResetSim(x.log, x.cfg.w))
  \cup C("brax.reset.obs", e.obs = ObsOf(e.sim, e.t))
  \cup C("brax.reset.metrics", e.met = MetricOf(e.sim, e.t))
  \cup C("brax.reset.reward", Len(e.rew) = Len(Rewards(x, e.sim, e.t)) /\ \A i \in DOMAIN e.rew : e.rew[i] = 0)
  \cup C("brax.reset.discount", e.disc = K)
  \cup C("brax.reset.done", x.cfg.term = 1 \/ e.done = 0)
StepBad(x, p, e) ==
  LET T == Horizon(x.log)  term == Terminated(x, e.sim, e.t) IN
     C("brax.step.state", e.t = p.t + 1 /\ e.sim = NextSim(x, p.sim, p.t, e.act))
  \cup C("brax.step.obs", e.obs = ObsOf(e.sim, e.t))
  \cup C("brax.step.metrics", e.met = MetricOf(p.sim, p.t))
  \cup C("brax.step.reward", e.rew = Rewards(x, p.sim, p.t))
  \cup C("brax.step.done", e.done = Bit(term \/ Truncated(T, e.t) = 1))
  \cup C("brax.step.discount", e.disc = IF term THEN 0 ELSE K)
Bad == LET x == Traces[tr] IN LET e == x.ev[l] IN
       (IF e.op = "reset" THEN ResetBad(x, e) ELSE StepBad(x, x.ev[l - 1], e))
       \cup C("brax.world", e.world = x.world0 /\ e.logdig = x.logdig0)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
