----------------------------- MODULE TracePlanning -----------------------------
(* Judges recorded episodes of the planning environment (and rollouts in it). *)
EXTENDS Planning, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}

ResetBad(x, e) ==
  LET want == ResetSim(x.log, x.cfg.w) IN
     C("plan.reset", e.t = ResetClock(x.cfg.w) /\ e.sim = want)
  \cup C("plan.state.init", e.ast = [i \in DOMAIN x.agents |-> AgentInit(x.agents[i], want, x.cfg.w - 1)])
  \cup C("plan.world", e.world = x.world0 /\ e.logdig = x.logdig0)

StepBad(x, p, e) ==
  LET T == Horizon(x.log)  t == p.t
      srcs(o) == PlanSources(x, p.ast, o)
      ok(o) == \E s \in srcs(o) : e.sim[o][t + 2] = PlanSlot(x, p.sim, t, p.ast, e.act, o, s)
      kind(o) == IF \E s \in srcs(o) : s = -1 THEN "plan.ego"
                 ELSE IF \E s \in srcs(o) : s > 0 THEN "plan.agent"
                 ELSE IF StartsOverlapped(x.log, o) = "yes" THEN "plan.overlapped" ELSE "plan.replay"
  IN C("plan.clock", e.t = t + 1)
     \cup C("plan.past", \A o \in Objs(x.log), k \in 1..T : k = t + 2 \/ e.sim[o][k] = p.sim[o][k])
     \cup {kind(o) : o \in {q \in Objs(x.log) : ~ok(q)}}
     \cup C("plan.state.thread", e.ast = [i \in DOMAIN x.agents |-> AgentNext(x.agents[i], p.ast[i], p.sim, t)])
     \cup C("plan.world", e.world = x.world0 /\ e.logdig = x.logdig0)

\* ego slot of the planning environment vs. of the multi-agent one (other models)
SameBad(e) == C("plan.dynamics", Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : e.a[i] - e.b[i] \in -e.tol..e.tol)
\* random streams: every agent its own, a function of the key given to the call
KeysBad(e) ==
  LET All == {<<i, j>> : i \in DOMAIN e.runs, j \in 1..(IF e.runs = <<>> THEN 0 ELSE Len(e.runs[1]))} IN
     C("plan.keys.own", \A a, b \in All : a # b => e.runs[a[1]][a[2]] # e.runs[b[1]][b[2]])
  \cup C("plan.keys.same", e.runs = <<>> \/ e.again = e.runs[1])
  \cup C("plan.keys.given", \A i \in DOMAIN e.had : e.had[i] = e.given)
\* inputs that must be rejected
RejectBad(e) == C("plan.reject." \o e.case, e.out = e.want)

Bad == LET x == Traces[tr] IN LET e == x.ev[l] IN
       CASE e.op = "reset" -> ResetBad(x, e)
         [] e.op = "step"  -> StepBad(x, x.ev[l - 1], e)
         [] e.op = "same"  -> SameBad(e)
         [] e.op = "keys" -> KeysBad(e)
         [] e.op = "reject" -> RejectBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
