-------------------------------- MODULE Agents --------------------------------
(***************************************************************************)
(* Reference actors: claims, merging, constant speed, path following and   *)
(* the intelligent-driver law.  Lengths/speeds 1/D, angles 1/S.            *)
(***************************************************************************)
EXTENDS Metrics
DT == 10        \* one interval is 1/DT seconds

\* ------------------------------- claims --------------------------------
\* o = [sdc, type, valid, cv] (cv: valid in the current slot), t: clock, i: index
Claims(rule, o, t, i) ==
  CASE rule = "sdc"     -> o.sdc = 1
    [] rule = "non_sdc" -> o.sdc = 0
    [] rule = "all"     -> TRUE
    [] rule = "none"    -> FALSE
    [] rule = "valid"   -> o.valid = 1
    [] rule = "type1"   -> o.type = 1
    [] rule = "now"     -> o.cv = 1
    [] rule = "clock"   -> (i + t) % 2 = 0

\* ------------------------------- merging -------------------------------
\* outs: sequence of [claim, act, valid] (each a per-object sequence), disjoint
Owners(outs, i) == {a \in DOMAIN outs : outs[a].claim[i] = 1}
Disjoint(outs) == \A i \in DOMAIN outs[1].claim : Cardinality(Owners(outs, i)) <= 1
MergedAct(outs, i) == LET a == CHOOSE a \in Owners(outs, i) : TRUE IN <<outs[a].act[i], outs[a].valid[i]>>

\* ---------------------------- constant speed ----------------------------
\* sp = -1: keep the current velocity; otherwise that speed along the heading
ConstNext(cur, keep, sp, ctl) ==
  LET vx == IF keep = 1 THEN cur.vx ELSE Mul(sp, Cos(cur.yaw))
      vy == IF keep = 1 THEN cur.vy ELSE Mul(sp, Sin(cur.yaw))
  IN [x |-> cur.x + DivR(vx, DT), y |-> cur.y + DivR(vy, DT), yaw |-> cur.yaw, vx |-> vx, vy |-> vy, valid |-> ctl * cur.valid]

\* ---------------------------- path following ----------------------------
\* log: sequence of <<x, y, yaw, valid>>; cur: current slot; ns: chosen speed,
\* nsv: whether a speed was chosen; inv: vanish at the end of the path.
\* Nearest-point and threshold comparisons are resolved within resolution, so
\* the result is the set of admissible updates.
ENDTOL == 500       \* 0.05 m
LOSTTOL == 50000    \* 5 m
STATIC == 10000     \* 1 m/s
LiveWps(log) == {k \in DOMAIN log : log[k][4] = 1}
LastWp(log) == IF LiveWps(log) = {} THEN 1 ELSE CHOOSE k \in LiveWps(log) : \A j \in LiveWps(log) : j <= k
Ahead(cur, ns) ==
  LET d == DivR(ns + Hypot(cur.vx, cur.vy), 2 * DT)
  IN <<cur.x + Mul(d, Cos(cur.yaw)), cur.y + Mul(d, Sin(cur.yaw))>>
NearestWps(p, log) ==
  LET L == LiveWps(log)  dd == [k \in L |-> Dist(p, log[k])]  m == MinSet({dd[k] : k \in L})
  IN IF L = {} THEN {1} ELSE {k \in L : dd[k] <= m + 12}
\* possible answers to "has the path ended at waypoint k?"
Ended(p, log, k) ==
  IF LiveWps(log) = {} THEN {TRUE}
  ELSE LET a == Dist(log[LastWp(log)], log[k])  b == Dist(p, log[k])
       IN (IF a < ENDTOL + 5 \/ b > LOSTTOL - 12 THEN {TRUE} ELSE {}) \cup
          (IF a > ENDTOL - 5 /\ b < LOSTTOL + 12 THEN {FALSE} ELSE {})
Project(p, w, frozen) ==
  IF frozen THEN <<w[1], w[2]>>
  ELSE LET c == Cos(w[3])  s == Sin(w[3])  u == Mul(c, p[1] - w[1]) + Mul(s, p[2] - w[2])
       IN <<w[1] + Mul(c, u), w[2] + Mul(s, u)>>
Filler == <<-D, -D, -S, -D, -D>>
Follow(cur, log, ns0, nsv, inv) ==
  LET ns == IF nsv = 1 THEN ns0 ELSE Hypot(cur.vx, cur.vy)
      p == Ahead(cur, ns)
  IN UNION UNION {{LET q == Project(p, log[k], inv = 1 /\ en)
                vel == IF ~en THEN <<Mul(ns, Cos(cur.yaw)), Mul(ns, Sin(cur.yaw))>> ELSE IF inv = 1 THEN <<0, 0>> ELSE <<cur.vx, cur.vy>>
                live == nsv = 1 /\ cur.valid = 1
                gone == IF inv = 1 /\ en THEN (IF ns > STATIC - 20 THEN {TRUE} ELSE {}) \cup (IF ns < STATIC + 20 THEN {FALSE} ELSE {}) ELSE {FALSE}
            IN {IF live /\ ~g THEN [out |-> <<q[1], q[2], log[k][3], vel[1], vel[2]>>, valid |-> 1] ELSE [out |-> Filler, valid |-> 0] : g \in gone}
            : en \in Ended(p, log, k)} : k \in NearestWps(p, log)}

\* ------------------------ intelligent-driver law ------------------------
\* p = [vd, s0, amax, bmax (1/D), hw (headway, 1/1000 s), pw (exponent),
\*      fromcur, look, n, dist (1/D)]
GeoMean(a, b) == LET h == ISqrt((a \div 100) * (b \div 100)) * 100 IN (h + BigMulDiv(a, b, h)) \div 2
RECURSIVE Power(_, _)
Power(r, k) == IF k = 0 THEN S ELSE BigMulDiv(Power(r, k - 1), r, S)
NOLEAD == [k |-> 0, d |-> 0, v |-> 0]
Desired(p, v, vl) == p.s0 + Max2(0, BigMulDiv(v, p.hw, 1000) + BigMulDiv(v, v - vl, 2 * GeoMean(p.amax, p.bmax)))
IDMAccel(p, v, lead) ==
  LET fr == Power(BigMulDiv(v, S, p.vd), p.pw)
      d == IF lead.d = 0 THEN 1000 ELSE lead.d
      r == IF lead = NOLEAD THEN 0 ELSE Min2(Desired(p, v, lead.v) \div d, 20) * S
      rr == IF lead = NOLEAD THEN 0 ELSE IF r >= 20 * S THEN 20 * S ELSE BigMulDiv(Desired(p, v, lead.v), S, d)
  IN BigMulDiv(p.amax, S - fr - BigMulDiv(rr, rr, S), S)
NewSpeed(p, v, lead) == Max2(0, v + DivR(IDMAccel(p, v, lead), DT))

\* look-ahead points of agent i: boxes <<x, y, len, wid, yaw, valid>>, distance.
\* w: the waypoints looked along, in order; then p.n points ahead of the last
Extension(w, p) == [k \in 1..p.n |-> LET s == DivR(k * p.dist, p.n) IN
                     <<w[1] + Mul(s, Cos(w[5])), w[2] + Mul(s, Sin(w[5])), w[3], w[4], w[5], w[6]>>]
Points(way, p) == way \o Extension(way[Len(way)], p)
\* three-valued blocking of point q by object j
Blocks(q, boxes, i, j) == IF i = j \/ q[6] = 0 \/ boxes[j][6] = 0 THEN "no" ELSE Meets(q, boxes[j])
\* admissible leads: nearest blocked point (first in path order for the speed,
\* smallest distance for the gap)
Leads(pts, dist, boxes, speeds, i) ==
  LET N == DOMAIN boxes
      B == [k \in DOMAIN pts |-> [j \in N |-> Blocks(pts[k], boxes, i, j)]]
      Any(k) == Or3({B[k][j] : j \in N})
      sure == {k \in DOMAIN pts : Any(k) = "yes"}
      maybe == {k \in DOMAIN pts : Any(k) # "no"}
      \* first blocked point, gap
      firstOf == {k \in maybe : \A q \in sure : q >= k}
      minsure == MinSet({dist[k] : k \in sure})
      gaps == {dist[k] : k \in {k \in maybe : dist[k] <= minsure}}
      speedsAt(k) == LET sj == {j \in N : B[k][j] = "yes"}  mj == {j \in N : B[k][j] # "no"}
                         cap == MinSet({speeds[j] : j \in sj}) IN {speeds[j] : j \in {j \in mj : speeds[j] <= cap}}
  IN (IF sure = {} THEN {NOLEAD} ELSE {}) \cup
     UNION {{[k |-> k, d |-> g, v |-> s] : g \in gaps, s \in speedsAt(k)} : k \in firstOf}
=============================================================================
