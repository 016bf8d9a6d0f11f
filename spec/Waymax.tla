------------------------------- MODULE Waymax -------------------------------
(***************************************************************************)
(* Core state machine of the simulator: what a reset and a step do to the  *)
(* simulated history.  A slot is one object at one time, an 11-tuple of    *)
(* integers: x, y, z, vx, vy, yaw, valid, timestamp, length, width, height *)
(* (floats are integers over K).  Histories are [object -> [slot index ->  *)
(* slot]], slot index = timestep + 1.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

K == 64
SX(s) == s[1]   SY(s) == s[2]   SZ(s) == s[3]
SVX(s) == s[4]  SVY(s) == s[5]  SYAW(s) == s[6]
SVALID(s) == s[7]   STS(s) == s[8]
SL(s) == s[9]   SW(s) == s[10]  SH(s) == s[11]

Pose(s) == <<s[1], s[2], s[6], s[4], s[5]>>      \* x, y, yaw, vx, vy
Body(s) == <<s[3], s[9], s[10], s[11]>>          \* z, length, width, height

Blank == <<-K, -K, -K, -K, -K, -K, 0, -1, -K, -K, -K>>

Objs(log) == DOMAIN log
Horizon(log) == Len(log[1])

(* ------------------------------- reset -------------------------------- *)
ResetSim(log, w) ==
  [o \in Objs(log) |-> [k \in 1..Horizon(log) |-> IF k <= w THEN log[o][k] ELSE Blank]]
ResetClock(w) == w - 1

(* --------------------------- who is controlled ------------------------ *)
\* cls: "SDC" | "MODELED" | "VALID";  meta: [sdc, modeled, valid] 0/1 vectors
ControlSet(cls, inject, meta, log, w) ==
  CASE cls = "SDC"     -> {o \in Objs(log) : meta.sdc[o] = 1}
    [] cls = "MODELED" -> {o \in Objs(log) : meta.modeled[o] = 1}
    [] cls = "VALID" /\ inject = 1 -> {o \in Objs(log) : meta.valid[o] = 1}
    [] cls = "VALID" /\ inject = 0 -> {o \in Objs(log) : SVALID(log[o][w]) = 1}

(* ------------------------------ dynamics ------------------------------ *)
\* Pose produced by an action; model = [kind, dtinv] (1/dt, an integer).
Update(model, cur, act) ==
  CASE model.kind = "state" -> <<act[1], act[2], act[3], act[4], act[5]>>
    [] model.kind = "delta" ->
         <<SX(cur) + act[1], SY(cur) + act[2], SYAW(cur) + act[3],
           act[1] * model.dtinv, act[2] * model.dtinv>>

(* -------------------------------- step -------------------------------- *)
NextValid(cur, nxt, ctl, inject) ==
  IF ctl /\ SVALID(cur) = 1 THEN 1
  ELSE IF inject = 1 THEN SVALID(nxt)
  ELSE IF SVALID(cur) = 1 /\ SVALID(nxt) = 1 THEN 1 ELSE 0

\* cur: simulated slot now; nxt: logged slot at the new time; upd: new pose
NextSlot(cur, nxt, ctl, upd, inject) ==
  LET p == IF ctl THEN upd ELSE Pose(nxt)
  IN <<p[1], p[2], SZ(cur), p[4], p[5], p[3], NextValid(cur, nxt, ctl, inject),
       STS(nxt), SL(cur), SW(cur), SH(cur)>>

\* constant-velocity fallback for a controlled object whose update is invalid;
\* one interval is 1/10 s (velocities are multiples of 10/K here); the heading
\* then is that of the velocity and is judged separately
Coast(cur) == <<SX(cur) + SVX(cur) \div 10, SY(cur) + SVY(cur) \div 10, 0, SVX(cur), SVY(cur)>>
ApplyPose(cur, nxt, ctl, upd, uvalid, fallback) ==
  IF ~ctl THEN Pose(nxt) ELSE IF fallback = 1 /\ uvalid = 0 THEN Coast(cur) ELSE upd

\* t is the clock (0-based) before the step
StepSim(sim, log, t, ctl, upd, inject) ==
  [o \in Objs(log) |->
     [k \in 1..Horizon(log) |->
        IF k = t + 2 THEN NextSlot(sim[o][t + 1], log[o][t + 2], o \in ctl, upd[o], inject)
        ELSE sim[o][k]]]

(* ------------------------------- clock -------------------------------- *)
Remaining(T, t) == T - 1 - t
Done(T, t) == IF Remaining(T, t) <= 0 THEN 1 ELSE 0
Truncated(T, t) == IF Remaining(T, t) < 1 THEN 1 ELSE 0
=============================================================================
