------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* Scores of one simulation state.  Lengths and positions 1/D, velocities  *)
(* 1/D, angles 1/S.  Real-valued predicates are three-valued near their    *)
(* boundary: "yes", "no" or "either" (within the numeric resolution).      *)
(***************************************************************************)
EXTENDS Dynamics, FiniteSets

Set3(yes, no) == IF yes THEN "yes" ELSE IF no THEN "no" ELSE "either"
Or3(A)  == IF "yes" \in A THEN "yes" ELSE IF "either" \in A THEN "either" ELSE "no"
Fits(v, bit) == v = "either" \/ (v = "yes" /\ bit = 1) \/ (v = "no" /\ bit = 0)

\* ------------------------------ overlap --------------------------------
\* box = <<x, y, length, width, yaw, valid>>; separation of two oriented
\* boxes = largest gap over the four edge normals (negative: they intersect
\* with positive area)
PX(b) == b[1]  PY(b) == b[2]  BL(b) == b[3]  BW(b) == b[4]  BA(b) == b[5]  BV(b) == b[6]
SepOver(a, b) ==
  LET d == Rot(-BA(a), <<PX(b) - PX(a), PY(b) - PY(a)>>)
      th == BA(b) - BA(a)
      c == Abs(Cos(th))  s == Abs(Sin(th))
      gx == 2 * Abs(d[1]) - (BL(a) + Mul(BL(b), c) + Mul(BW(b), s))
      gy == 2 * Abs(d[2]) - (BW(a) + Mul(BL(b), s) + Mul(BW(b), c))
  IN Max2(gx, gy)
\* cheap exact rejection far away (keeps Rot in range)
Far(a, b) == LET r == (BL(a) + BW(a) + BL(b) + BW(b)) IN Abs(PX(a) - PX(b)) > r \/ Abs(PY(a) - PY(b)) > r
Meets(a, b) ==
  IF Far(a, b) THEN "no"
  ELSE LET g == Max2(SepOver(a, b), SepOver(b, a)) IN Set3(g < -40, g > 40)
\* is object i overlapping some other valid object?
Overlap(boxes, i) ==
  IF BV(boxes[i]) = 0 THEN "no"
  ELSE Or3({Meets(boxes[i], boxes[j]) : j \in {k \in DOMAIN boxes : k # i /\ BV(boxes[k]) = 1}})

\* ------------------------------ off-road -------------------------------
\* all lengths in this section in 1/U; directions in 1/1000
U == 200
ToU(v) == DivR(v, 50)      \* 1/D -> 1/U
Corners(b) ==
  LET c == Cos(BA(b))  s == Sin(BA(b))
      P(sl, sw) == <<PX(b) + sl * (Mul(BL(b), c) \div 2) - sw * (Mul(BW(b), s) \div 2),
                     PY(b) + sl * (Mul(BL(b), s) \div 2) + sw * (Mul(BW(b), c) \div 2)>>
  IN {P(1, 1), P(1, -1), P(-1, 1), P(-1, -1)}
\* point = <<x, y, z (1/U), dirx, diry (1/1000), type, id, valid>>
EdgeType(t) == t = 15 \/ t = 16
UsableEdge(p) == p[8] = 1 /\ EdgeType(p[6])
\* (stretched) squared distance; BEYOND what fits counts as equally far
BEYOND == 2100000000
D2(q, p) ==
  LET dx == p[1] - q[1]  dy == p[2] - q[2]  dz == p[3] - q[3]
  IN IF Abs(dx) > 30000 \/ Abs(dy) > 30000 \/ Abs(dz) > 7500 THEN BEYOND ELSE dx * dx + dy * dy + 4 * dz * dz
\* q = <<x, y, z>>; on the outer side of the edge through point i?
Cross(q, p, dirp) == (q[1] - p[1]) * dirp[5] - (q[2] - p[2]) * dirp[4]
Side(q, rg, i) ==
  LET p == rg[i]
      c1 == Cross(q, p, p)
      prior == i > 1 /\ rg[i - 1][7] = p[7]
      c == IF prior THEN Min2(c1, Cross(q, p, rg[i - 1])) ELSE c1
      tol == 3000 + (Abs(q[1] - p[1]) + Abs(q[2] - p[2])) \div 2
  IN Set3(c > tol, c < -tol)
OuterCorner(q, rg) ==
  LET E == {i \in DOMAIN rg : UsableEdge(rg[i])}
      dd == [i \in E |-> D2(q, rg[i])]
      m == CHOOSE v \in {dd[i] : i \in E} : \A i \in E : v <= dd[i]
      \* near ties: |d - dmin| below about 2 units
      tie == 4 * ISqrt(m) + 8
      near == {i \in E : dd[i] - m <= tie}
      V == {Side(q, rg, i) : i \in near}
  IN IF E = {} THEN "no"
     ELSE IF V = {"yes"} THEN "yes" ELSE IF V = {"no"} THEN "no" ELSE "either"
Offroad(box, z, rg) == Or3({OuterCorner(<<ToU(p[1]), ToU(p[2]), ToU(z)>>, rg) : p \in Corners(box)})

\* ------------------------- distances to route paths ---------------------
\* path = [on, pts] with pts = seq of <<x, y, valid, arc>>
INF == 2000000000
Dist(q, p) == Hypot(p[1] - q[1], p[2] - q[2])
MinSet(A) == IF A = {} THEN INF ELSE CHOOSE v \in A : \A w \in A : v <= w
PathDist(q, path) == MinSet({Dist(q, path.pts[j]) : j \in {k \in DOMAIN path.pts : path.pts[k][3] = 1}})
ClosestOf(q, paths, keep(_)) == MinSet({PathDist(q, paths[i]) : i \in {k \in DOMAIN paths : keep(paths[k])}})
TOLD == 12

\* wrong way
WRONGWAY == 35000
\* off route
MAXONROUTE == 50000
MARGIN == 20000
OffRoute(on, off) ==
  IF on = INF THEN "no"
  ELSE LET far == on > MAXONROUTE + TOLD   near == on < MAXONROUTE - TOLD
           byoff == off # INF /\ on - off > MARGIN + TOLD
           notoff == off = INF \/ on - off < MARGIN - TOLD
       IN Set3(far \/ byoff, near /\ notoff)

\* progression: candidates within resolution of the closest on-route path
ValidIdx(path) == {k \in DOMAIN path.pts : path.pts[k][3] = 1}
NearestArcs(q, path) ==
  LET V == ValidIdx(path)
      m == PathDist(q, path)
  IN {path.pts[k][4] : k \in {j \in V : Dist(q, path.pts[j]) <= m + TOLD}}
RefPaths(q, paths) ==
  LET on == {i \in DOMAIN paths : paths[i].on = 1}
      m == MinSet({PathDist(q, paths[i]) : i \in on})
  IN IF m = INF THEN {} ELSE {i \in on : PathDist(q, paths[i]) # INF /\ PathDist(q, paths[i]) <= m + TOLD}
\* out (1/10000) is the fraction for some admissible reference
ProgressFits(out, q, start, end, paths) ==
  \E i \in RefPaths(q, paths) :
    \E a \in NearestArcs(start, paths[i]), b \in NearestArcs(end, paths[i]), c \in NearestArcs(q, paths[i]) :
       IF a = b THEN Abs(out - 10000) <= 2
       ELSE Abs(out * (b - a) - 10000 * (c - a)) <= 3 * Abs(b - a)

\* ----------------------------- kinematics ------------------------------
\* p = [dtms, maxacc (1/D), maxsteer (1/S)]
KinFlag(cur, nxt, p) ==
  LET s0 == Hypot(cur.vx, cur.vy)  s1 == Hypot(nxt.vx, nxt.vy)
      a == BikeAccel(cur, nxt, p)
      lima == p.maxacc + 10
      ta == 30 + (40 * 100) \div p.dtms
      acc == Set3(Abs(a) > lima + ta, Abs(a) < lima - ta)
      dist == BikeDist(s0, a, p.dtms)
      dyaw == Abs(Wrap(Atan2(nxt.vy, nxt.vx) - cur.yaw))
      lim == BigMulDiv(p.maxsteer + 1000, dist, D)
      slow == s0 < SLOW - 20 \/ s1 < SLOW - 20
      fast == s0 > SLOW + 20 /\ s1 > SLOW + 20
      steer == IF slow THEN "no" ELSE IF ~fast THEN "either" ELSE Set3(dyaw > lim + 250, dyaw < lim - 250)
  IN Or3({acc, steer})
=============================================================================
