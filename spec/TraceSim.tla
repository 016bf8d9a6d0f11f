------------------------------- MODULE TraceSim -------------------------------
(***************************************************************************)
(* Judges recorded runs of the real environments against Waymax.tla.       *)
(* A trace is [cfg, meta, log, world0, logdig0, ev]; events are "reset" or *)
(* "step" with the complete projected state after the call.  The verdict   *)
(* is total: every event is consumed, failing clauses are printed by name. *)
(***************************************************************************)
EXTENDS Waymax, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr

C(name, ok) == IF ok THEN {} ELSE {name}

ClockBad(T, e) ==
     C("clock.remaining", e.remaining = Remaining(T, e.t))
  \cup C("clock.done", e.done = Done(T, e.t))
  \cup C("clock.truncation", e.trunc = Truncated(T, e.t))
  \cup C("clock.termination", e.term = 0)

WorldBad(x, e) == C("world", e.world = x.world0) \cup C("log", e.logdig = x.logdig0)

ResetBad(x, e) ==
  LET T == Horizon(x.log)
      want == ResetSim(x.log, x.cfg.w)
  IN C("reset.clock", e.t = ResetClock(x.cfg.w))
     \cup C("reset.warmup", \A o \in Objs(x.log), k \in 1..(x.cfg.w) : e.sim[o][k] = want[o][k])
     \cup C("reset.blank", \A o \in Objs(x.log), k \in (x.cfg.w + 1)..T : e.sim[o][k] = want[o][k])
     \cup C("reset.shape", Objs(e.sim) = Objs(x.log) /\ \A o \in Objs(x.log) : Len(e.sim[o]) = T)
     \cup {"reset." \o c : c \in WorldBad(x, e)}
     \cup ClockBad(T, e)

StepBad(x, p, e) ==     \* p: event before (state before the call)
  LET T == Horizon(x.log)
      t == p.t
      ctl == ControlSet(x.cfg.cls, x.cfg.inject, x.meta, x.log, x.cfg.w)
      upd == [o \in Objs(x.log) |-> Update(x.cfg.model, p.sim[o][t + 1], e.act[o])]
      want == StepSim(p.sim, x.log, t, ctl, upd, x.cfg.inject)
      new(o) == e.sim[o][t + 2]
      wnt(o) == want[o][t + 2]
      poseOk(o) == Pose(new(o)) = Pose(wnt(o))
      \* objects whose membership matters: following the action is
      \* distinguishable from replaying the log
      tells(o) == upd[o] # Pose(x.log[o][t + 2])
  IN C("step.clock", e.t = t + 1)
     \cup C("step.past", \A o \in Objs(x.log), k \in 1..(t + 1) : e.sim[o][k] = p.sim[o][k])
     \cup C("step.future", \A o \in Objs(x.log), k \in (t + 3)..T : e.sim[o][k] = p.sim[o][k])
     \cup C("step.shape", Objs(e.sim) = Objs(x.log) /\ \A o \in Objs(x.log) : Len(e.sim[o]) = T)
     \cup C("pose.controlled", \A o \in ctl : poseOk(o))
     \cup C("pose.replay", \A o \in Objs(x.log) \ ctl : poseOk(o))
     \cup C("member.missing", \A o \in ctl : tells(o) => Pose(new(o)) # Pose(x.log[o][t + 2]))
     \cup C("member.extra", \A o \in Objs(x.log) \ ctl : tells(o) => Pose(new(o)) # upd[o])
     \cup C("timestamp", \A o \in Objs(x.log) : STS(new(o)) = STS(wnt(o)))
     \cup C("carry", \A o \in Objs(x.log) : Body(new(o)) = Body(wnt(o)))
     \cup C("valid.controlled", \A o \in ctl : SVALID(new(o)) = SVALID(wnt(o)))
     \cup C("valid.replay", \A o \in Objs(x.log) \ ctl : SVALID(new(o)) = SVALID(wnt(o)))
     \cup {"step." \o c : c \in WorldBad(x, e)}
     \cup ClockBad(T, e)

Bad == LET x == Traces[tr] IN LET e == x.ev[l] IN
       CASE e.op = "reset" -> ResetBad(x, e)
         [] e.op = "step"  -> StepBad(x, x.ev[l - 1], e)
         \* the clock of one member of a batch whose members are at different times
         [] e.op = "clock" -> ClockBad(Horizon(x.log), e)

Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
