------------------------------ MODULE Planning ------------------------------
(***************************************************************************)
(* The planning environment: one planner drives the ego, a list of sim     *)
(* agents drives other objects, everything else replays the log.           *)
(*                                                                         *)
(* A sim agent is an arbitrary stateful function of the pre-step state; the*)
(* family modelled here reads another object's current pose, its parameter *)
(* and its own counter, and claims objects from a table by that counter:   *)
(*   [shift, px, py, inc, c0, claims (sequence of 0/1 vectors)]            *)
(***************************************************************************)
EXTENDS Waymax
M == INSTANCE Metrics

\* ------------------------------ sim agents ------------------------------
Donor(ag, o, n) == ((o - 1 + ag.shift) % n) + 1
AgentOut(ag, c, sim, t, o) ==
  LET s == sim[Donor(ag, o, Len(sim))][t + 1] IN
  <<SX(s) + ag.px, SY(s) + 16 * c + ag.py, SYAW(sim[o][t + 1]) + ag.px, SVX(s), SVY(s) + 16 * c>>
Claims(ag, c, o) == ag.claims[(c % Len(ag.claims)) + 1][o] = 1
AgentInit(ag, sim, t) == ag.c0 + t + SVALID(sim[1][t + 1])
AgentNext(ag, c, sim, t) == c + ag.inc + SVALID(sim[1][t + 1])

\* ------------------------- initial overlap ------------------------------
ToD(v) == (v * 625) \div 4                 \* 1/64 -> 1/10000
BoxOf(s) == <<ToD(SX(s)), ToD(SY(s)), ToD(SL(s)), ToD(SW(s)), SYAW(s) * 15625, 1>>
\* "yes" | "no" | "either" (within numeric resolution of touching)
StartsOverlapped(log, o) == M!Overlap([p \in Objs(log) |-> BoxOf(log[p][1])], o)

\* --------------------------- who drives what ----------------------------
\* 0: the log, -1: the planner, i > 0: sim agent i (the last one claiming it)
SourceOf(o, ego, over, claim(_, _), n) ==
  IF o = ego THEN -1
  ELSE LET A == {i \in 1..n : claim(i, o)} IN
       IF over \/ A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : j <= i

Ego(meta) == CHOOSE o \in DOMAIN meta.sdc : meta.sdc[o] = 1

PlanSources(x, ast, o) ==
  LET claim(i, p) == Claims(x.agents[i], ast[i], p)
      ov == StartsOverlapped(x.log, o)
      src(b) == SourceOf(o, Ego(x.meta), b, claim, Len(x.agents))
  IN (IF ov # "yes" THEN {src(FALSE)} ELSE {}) \cup (IF ov # "no" THEN {src(TRUE)} ELSE {})

PlanSlot(x, sim, t, ast, act, o, src) ==
  NextSlot(sim[o][t + 1], x.log[o][t + 2], src # 0,
           IF src = -1 THEN Update(x.cfg.model, sim[o][t + 1], act)
           ELSE IF src = 0 THEN Pose(x.log[o][t + 2])
           ELSE AgentOut(x.agents[src], ast[src], sim, t, o),
           x.cfg.inject)
=============================================================================
