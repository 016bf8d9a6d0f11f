------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* Dynamics models.  Units: metres 1/D, velocities 1/D per second,         *)
(* accelerations 1/D, angles and steering curvature 1/S, time in ms.       *)
(* A pose is <<x, y, yaw, vx, vy>>; "cur" records are                      *)
(* [x, y, yaw, vx, vy, valid].                                             *)
(***************************************************************************)
EXTENDS FixedPoint
D == 10000

\* ------------------------------ forward -------------------------------
StateFwd(act) == <<act[1], act[2], act[3], act[4], act[5]>>

GlobalFwd(cur, act, dtms) ==
  <<cur.x + act[1], cur.y + act[2], cur.yaw + act[3],
    BigMulDiv(act[1], 1000, dtms), BigMulDiv(act[2], 1000, dtms)>>

LocalFwd(cur, act, dtms) ==
  LET g == Rot(cur.yaw, <<act[1], act[2]>>)
  IN GlobalFwd(cur, <<g[1], g[2], act[3]>>, dtms)

\* acceleration (1/D) and curvature (1/S) actually applied; p = parameters
\* [dtms, maxacc (1/D), maxsteer (1/S), norm 0/1]; act = <<a, s>> with the
\* raw action in 1/D, 1/S, or both in 1/S when normalised
BikeApplied(act, p) ==
  IF p.norm = 0 THEN <<Clip(act[1], -p.maxacc, p.maxacc), Clip(act[2], -p.maxsteer, p.maxsteer)>>
  ELSE <<Mul(Clip(act[1], -S, S), p.maxacc), Mul(Clip(act[2], -S, S), p.maxsteer)>>

\* half a t^2 in 1/D
HalfATT(a, dtms) == DivR(DivR(a * dtms, 1000) * dtms, 2000)

BikeDist(speed, a, dtms) == BigMulDiv(speed, dtms, 1000) + HalfATT(a, dtms)

BikeFwd(cur, act, p) ==
  LET ap == BikeApplied(act, p)
      a == ap[1]
      speed == Hypot(cur.vx, cur.vy)
      h == HalfATT(a, p.dtms)
      dist == BikeDist(speed, a, p.dtms)
      nyaw == Wrap(cur.yaw + BigMulDiv(ap[2], dist, D))
      nv == speed + BigMulDiv(a, p.dtms, 1000)
  IN <<cur.x + BigMulDiv(cur.vx, p.dtms, 1000) + Mul(h, Cos(cur.yaw)),
       cur.y + BigMulDiv(cur.vy, p.dtms, 1000) + Mul(h, Sin(cur.yaw)),
       nyaw, Mul(nv, Cos(nyaw)), Mul(nv, Sin(nyaw))>>

\* validity of an update
UpdValid(kind, curValid, actValid) == IF kind = "state" THEN actValid ELSE curValid * actValid

Fwd(kind, cur, act, p) ==
  CASE kind = "state"  -> StateFwd(act)
    [] kind = "global" -> GlobalFwd(cur, act, p.dtms)
    [] kind = "local"  -> LocalFwd(cur, act, p.dtms)
    [] kind = "bike"   -> BikeFwd(cur, act, p)

\* ------------------------------ inverse -------------------------------
InvValid(kind, cur, nxt) == IF kind = "state" THEN nxt.valid ELSE cur.valid * nxt.valid

GlobalInv(cur, nxt, p) ==
  IF cur.valid * nxt.valid = 0 THEN <<0, 0, 0>>
  ELSE <<Clip(nxt.x - cur.x, -p.maxdx, p.maxdx), Clip(nxt.y - cur.y, -p.maxdy, p.maxdy),
         Clip(Wrap(nxt.yaw - cur.yaw), -p.maxdyaw, p.maxdyaw)>>
LocalInv(cur, nxt, p) ==
  LET g == GlobalInv(cur, nxt, p)
      r == Rot(-cur.yaw, <<g[1], g[2]>>)
  IN <<Clip(r[1], -p.maxdx, p.maxdx), Clip(r[2], -p.maxdy, p.maxdy), g[3]>>

SLOW == 6000   \* 0.6 m/s in 1/D
BikeAccel(cur, nxt, p) == BigMulDiv(Hypot(nxt.vx, nxt.vy) - Hypot(cur.vx, cur.vy), 1000, p.dtms)
=============================================================================
