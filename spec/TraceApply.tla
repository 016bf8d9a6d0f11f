------------------------------ MODULE TraceApply ------------------------------
(***************************************************************************)
(* Judges direct applications of a trajectory update to a history, with    *)
(* and without the constant-velocity fallback: event                       *)
(*  [sim, log, out: object -> slot index -> slot; t; ctl, uv, upd, yaw     *)
(*   per object; fb, inject].  Angles in yaw are 1/1000000 rad.            *)
(***************************************************************************)
EXTENDS Waymax, TLC, Json, IOUtils
F == INSTANCE FixedPoint
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}

ApplyBad(e) ==
  LET N == DOMAIN e.sim  k == e.t + 1  T == Len(e.sim[1])
      cur(o) == e.sim[o][k]   nxt(o) == e.log[o][k + 1]   new(o) == e.out[o][k + 1]
      ctl(o) == e.ctl[o] = 1
      want(o) == ApplyPose(cur(o), nxt(o), ctl(o), e.upd[o], e.uv[o], e.fb)
      coasts(o) == ctl(o) /\ e.fb = 1 /\ e.uv[o] = 0
      place(p) == <<p[1], p[2], p[4], p[5]>>
  IN C("apply.past", \A o \in N, q \in 1..T : q # k + 1 => e.out[o][q] = e.sim[o][q])
     \cup C("apply.pose", \A o \in N : IF coasts(o) THEN place(Pose(new(o))) = place(want(o)) ELSE Pose(new(o)) = want(o))
     \cup C("apply.heading", \A o \in N : coasts(o) => F!AngDist(e.yaw[o], F!Atan2(SVY(cur(o)), SVX(cur(o)))) <= 4)
     \cup C("apply.valid", \A o \in N : SVALID(new(o)) = NextValid(cur(o), nxt(o), ctl(o), e.inject))
     \cup C("apply.timestamp", \A o \in N : STS(new(o)) = STS(nxt(o)))
     \cup C("apply.carry", \A o \in N : Body(new(o)) = Body(cur(o)))

Bad == ApplyBad(Traces[tr].ev[l])
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
