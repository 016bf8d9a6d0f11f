----------------------------- MODULE TraceRollout -----------------------------
(* Judges recorded rollouts, entry by entry. *)
EXTENDS Rollout, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}

\* the actor's counter at entry k (1-based), threaded from entry to entry
RECURSIVE Counter(_, _)
Counter(x, k) == IF k = 1 THEN ActorInit(x, x.ev[1].sim, x.ev[1].t)
                 ELSE ActorNext(x, Counter(x, k - 1), x.ev[k - 1].sim, x.ev[k - 1].t)

ActRows(x) == IF x.cfg.kind = "planning" THEN {1} ELSE Objs(x.log)
ObjOfRow(x, i) == IF x.cfg.kind = "planning" THEN Ego(x.meta) ELSE i
\* per-entry scores: one row per object, or the ego only
ScoreBad(x, e) ==
     C("roll.obs", e.obs = ObsOf(e.sim, e.t))
  \cup C("roll.metrics", e.met = MetricOf(e.sim, e.t))
  \cup C("roll.reward", IF x.cfg.kind = "planning" THEN e.rew = <<RewardOf(x, e.sim, e.t, Ego(x.meta))>>
                        ELSE e.rew = [o \in Objs(x.log) |-> RewardOf(x, e.sim, e.t, o)])

Zero(v) == \A i \in DOMAIN v : v[i] = 0
ActBad(x, e, k) ==
  IF k = Len(x.ev) THEN C("roll.padding", (\A i \in DOMAIN e.act : Zero(e.act[i])) /\ Zero(e.av))
  ELSE CASE x.kind = "counter" -> LET c == Counter(x, k) IN
              C("roll.action", \A i \in ActRows(x) : e.act[i] = ActorAct(x, c, e.sim, e.t, ObjOfRow(x, i)) /\ e.av[i] = c % 2)
         [] x.kind = "expert" ->
              C("roll.expert", \A i \in ActRows(x) : e.act[i] = ExpertAct(x, e.sim, e.t, ObjOfRow(x, i)) /\ e.av[i] = ExpertOk(x, e.sim, e.t, ObjOfRow(x, i)))
         [] x.kind = "random" ->
              C("roll.fresh_key", k = 1 \/ e.act # x.ev[k - 1].act)
\* with sim agents the other objects may be theirs
StepOk(x, p, e) ==
  IF x.agents = <<>> THEN e.sim = NextSim(x, p.sim, p.t, p.act)
  ELSE \A o \in Objs(x.log) :
         /\ \A k \in DOMAIN e.sim[o] : k = p.t + 2 \/ e.sim[o][k] = p.sim[o][k]
         /\ \E s \in PlanSources(x, p.ast, o) : e.sim[o][p.t + 2] = PlanSlot(x, p.sim, p.t, p.ast, p.act[1], o, s)
EntryBad(x, e, k) ==
  (IF k = 1 THEN C("roll.reset", e.t = ResetClock(x.cfg.w) /\ e.sim = ResetSim(x.log, x.cfg.w))
   ELSE LET p == x.ev[k - 1] IN C("roll.clock", e.t = p.t + 1) \cup C("roll.step", StepOk(x, p, e)))
  \cup ActBad(x, e, k) \cup ScoreBad(x, e) \cup C("roll.length", Len(x.ev) = x.cfg.n + 1)
  \cup C("roll.world", e.world = x.world0 /\ e.logdig = x.logdig0)
  \cup (IF x.cfg.kind = "planning" /\ Len(x.agents) > 0 THEN
          C("roll.simagents", e.ast = IF k = 1 THEN [i \in DOMAIN x.agents |-> AgentInit(x.agents[i], e.sim, e.t)]
                                      ELSE [i \in DOMAIN x.agents |-> AgentNext(x.agents[i], x.ev[k - 1].ast[i], x.ev[k - 1].sim, x.ev[k - 1].t)]) ELSE {})

Bad == LET x == Traces[tr] IN EntryBad(x, x.ev[l], l)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
