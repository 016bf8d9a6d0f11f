------------------------------- MODULE DynRules -------------------------------
(***************************************************************************)
(* What a recorded dynamics-model call must satisfy, clause by clause.     *)
(***************************************************************************)
EXTENDS Dynamics
C(name, ok) == IF ok THEN {} ELSE {name}
TOLX == 12    \* 1.2 mm
\* float32 positions far from the origin
FarTol(v) == Abs(v) \div 8000000
TOLV == 60    \* 6 mm/s
TOLA == 160   \* 1.6e-4 rad (0.1 mm resolution of distances times curvature)

\* a bicycle turns by curvature times distance: the resolution of distances is
\* magnified by the curvature
TolYaw(kind, p) == IF kind = "bike" THEN TOLA + (p.maxsteer * 2) \div D ELSE TOLA
TolVel(kind, p, w) == TOLV + (IF kind = "bike" /\ p.maxsteer > S \div 2 THEN BigMulDiv(Hypot(w[4], w[5]), TolYaw(kind, p), S) ELSE 0)

PoseBad(pre, kind, out, w, p) ==
     C(pre \o ".x", Near(out[1], w[1], TOLX + FarTol(w[1])))
  \cup C(pre \o ".y", Near(out[2], w[2], TOLX + FarTol(w[2])))
  \cup C(pre \o ".yaw", IF kind = "bike" THEN AngDist(out[3], w[3]) <= TolYaw(kind, p) ELSE Near(out[3], w[3], TOLA))
  \cup C(pre \o ".vx", Near(out[4], w[4], TolVel(kind, p, w)))
  \cup C(pre \o ".vy", Near(out[5], w[5], TolVel(kind, p, w)))

FwdBad(e) ==
  LET w == Fwd(e.kind, e.cur, e.act, e.p)
      dv == Hypot(e.out[4], e.out[5]) - Hypot(e.cur.vx, e.cur.vy)
  IN PoseBad("fwd." \o e.kind, e.kind, e.out, w, e.p)
     \cup C("fwd." \o e.kind \o ".valid", e.via = "forward" \/ e.valid = UpdValid(e.kind, e.cur.valid, e.av))
     \cup (IF e.kind # "bike" THEN {} ELSE
           C("fwd.bike.range", e.out[3] >= -PI - 20 /\ e.out[3] <= PI + 20)
           \cup C("fwd.bike.accel_limit", Abs(dv) <= BigMulDiv(e.p.maxacc, e.p.dtms, 1000) + TOLV)
           \cup C("fwd.bike.turn_limit",
                  AngDist(e.out[3], e.cur.yaw) <=
                    BigMulDiv(e.p.maxsteer, Abs(BikeDist(Hypot(e.cur.vx, e.cur.vy), BikeApplied(e.act, e.p)[1], e.p.dtms)), D) + TolYaw("bike", e.p)))

BikeInvBad(e) ==
  LET c == e.cur  n == e.nxt
      s0 == Hypot(c.vx, c.vy)  s1 == Hypot(n.vx, n.vy)
      raw == BikeAccel(c, n, e.p)
      acc == IF e.p.norm = 1 THEN Mul(e.out[1], e.p.maxacc) ELSE e.out[1]
      st  == IF e.p.norm = 1 THEN Mul(e.out[2], e.p.maxsteer) ELSE e.out[2]
      \* 1/D velocity error of Hypot over dt
      tolA == 30 + (40 * 100) \div e.p.dtms
      dist == BikeDist(s0, raw, e.p.dtms)
      dyaw == Wrap(Atan2(n.vy, n.vx) - c.yaw)
      \* bound on |steer*dist| when saturated
      lim == BigMulDiv(e.p.maxsteer, dist, D)
      slow == s0 < SLOW - 20 \/ s1 < SLOW - 20
      fast == s0 > SLOW + 20 /\ s1 > SLOW + 20
      nearPi == Abs(dyaw) > PI - 200
      tolD == 120 + Abs(BigMulDiv(st, 10, D))
  IN IF c.valid * n.valid = 0
     THEN C("inv.bike.invalid_zero", e.out = <<0, 0>>)
     ELSE C("inv.bike.accel", Near(acc, Clip(raw, -e.p.maxacc, e.p.maxacc), tolA))
          \cup C("inv.bike.slow", slow => Abs(e.out[2]) <= 2)
          \cup C("inv.bike.steer", (fast /\ ~nearPi /\ dist > 200) =>
                 Near(BigMulDiv(st, dist, D), Clip(dyaw, -lim, lim), tolD))

InvBad(e) ==
     C("inv." \o e.kind \o ".valid", e.valid = InvValid(e.kind, e.cur, e.nxt))
  \cup C("inv." \o e.kind \o ".bounds", \A i \in 1..Len(e.out) : e.out[i] >= e.lo[i] - 2 /\ e.out[i] <= e.hi[i] + 2)
  \cup (CASE e.kind = "state" ->
            C("inv.state.value", e.out = <<e.nxt.x, e.nxt.y, e.nxt.yaw, e.nxt.vx, e.nxt.vy>>)
        [] e.kind = "bike" -> BikeInvBad(e)
        [] OTHER ->
            LET w == IF e.kind = "global" THEN GlobalInv(e.cur, e.nxt, e.p) ELSE LocalInv(e.cur, e.nxt, e.p)
                edge == Abs(Wrap(e.nxt.yaw - e.cur.yaw)) > PI - 50 /\ e.p.maxdyaw > PI - 60
            IN IF e.cur.valid * e.nxt.valid = 0
               THEN C("inv." \o e.kind \o ".invalid_zero", e.out = <<0, 0, 0>>)
               ELSE C("inv." \o e.kind \o ".dxy", Near(e.out[1], w[1], TOLX) /\ Near(e.out[2], w[2], TOLX))
                    \cup C("inv." \o e.kind \o ".dyaw", IF edge THEN AngDist(e.out[3], w[3]) <= TOLA
                                                        ELSE Near(e.out[3], w[3], TOLA)))

\* feasible motions: the inferred action carries the logged slot to its successor
Feasible(e) ==
  /\ e.cur.valid = 1 /\ e.nxt.valid = 1
  /\ CASE e.kind = "state" -> TRUE
       [] e.kind = "global" -> /\ Abs(e.nxt.x - e.cur.x) <= e.p.maxdx /\ Abs(e.nxt.y - e.cur.y) <= e.p.maxdy
                               /\ Abs(Wrap(e.nxt.yaw - e.cur.yaw)) <= e.p.maxdyaw
       [] e.kind = "local" ->
            LET dx == e.nxt.x - e.cur.x  dy == e.nxt.y - e.cur.y
                r == Rot(-e.cur.yaw, <<Clip(dx, -1000000, 1000000), Clip(dy, -1000000, 1000000)>>)
            IN /\ Abs(dx) <= e.p.maxdx /\ Abs(dy) <= e.p.maxdy /\ Abs(r[1]) <= e.p.maxdx /\ Abs(r[2]) <= e.p.maxdy
               /\ Abs(Wrap(e.nxt.yaw - e.cur.yaw)) <= e.p.maxdyaw
       [] e.kind = "bike" ->
            LET s0 == Hypot(e.cur.vx, e.cur.vy)  s1 == Hypot(e.nxt.vx, e.nxt.vy)
                a == BikeAccel(e.cur, e.nxt, e.p)
                dist == BikeDist(s0, a, e.p.dtms)
                dy == Wrap(Atan2(e.nxt.vy, e.nxt.vx) - e.cur.yaw)
            IN /\ s0 > SLOW + 50 /\ s1 > SLOW + 50 /\ Abs(a) <= e.p.maxacc - 50
               /\ Abs(dy) <= BigMulDiv(e.p.maxsteer - 2000, dist, D)
               \* the log itself moves as a bicycle would: position advanced along velocity
               /\ LET w == <<e.cur.x + BigMulDiv(e.cur.vx, e.p.dtms, 1000) + Mul(HalfATT(a, e.p.dtms), Cos(e.cur.yaw)),
                             e.cur.y + BigMulDiv(e.cur.vy, e.p.dtms, 1000) + Mul(HalfATT(a, e.p.dtms), Sin(e.cur.yaw))>>
                  IN Near(w[1], e.nxt.x, 30 + FarTol(w[1])) /\ Near(w[2], e.nxt.y, 30 + FarTol(w[2]))
               /\ AngDist(Atan2(e.nxt.vy, e.nxt.vx), e.nxt.yaw) <= 300
RoundBad(e) ==
  IF ~Feasible(e) THEN {}
  ELSE C("round." \o e.kind \o ".xy", Near(e.out[1], e.nxt.x, 60 + FarTol(e.nxt.x)) /\ Near(e.out[2], e.nxt.y, 60 + FarTol(e.nxt.y)))
       \cup C("round." \o e.kind \o ".yaw", AngDist(e.out[3], e.nxt.yaw) <= 1000)
       \cup C("round." \o e.kind \o ".valid", e.valid = 1)
=============================================================================
