-------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* What an agent sees: rigid reference frames, observation windows and     *)
(* nearest-point map filtering; plus the element-wise rules of structured  *)
(* time-indexed arrays ("fibers": one line of an array along one axis).    *)
(* Positions and velocities 1/D, angles 1/S unless stated otherwise.       *)
(***************************************************************************)
EXTENDS Metrics
TOLP == 8       \* 0.8 mm
TOLY == 12      \* 12 microradians

\* ------------------------------ rigid motions ---------------------------
\* a reference pose is <<x, y, yaw, valid>>
GlobalRef == <<0, 0, 0, 1>>
ToLocal(ref, p) == Rot(-ref[3], <<p[1] - ref[1], p[2] - ref[2]>>)
ToGlobal(ref, p) == LET q == Rot(ref[3], p) IN <<q[1] + ref[1], q[2] + ref[2]>>
DirLocal(ref, v) == Rot(-ref[3], v)
YawLocal(ref, a) == a - ref[3]
NearP(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol)
NearYaw(a, b) == AngDist(a, b) <= TOLY
\* frame "GLOBAL" | "OBJECT" | "SDC"; cur: current poses; who: observer
RefOf(frame, cur, who, sdc) ==
  CASE frame = "GLOBAL" -> GlobalRef [] frame = "OBJECT" -> cur[who] [] frame = "SDC" -> cur[sdc]
\* the pose of frame b expressed in frame a, and the inverse motion
PoseIn(a, b) == LET p == ToLocal(a, b) IN <<p[1], p[2], Wrap(b[3] - a[3]), 1>>
InversePose(a) == LET p == Rot(-a[3], <<-a[1], -a[2]>>) IN <<p[1], p[2], Wrap(-a[3]), 1>>

\* corners in order: front right, front left, back left, back right
BoxCorners(b) ==
  LET c == Cos(BA(b))  s == Sin(BA(b))
      lc == Mul(BL(b), c) \div 2  ls == Mul(BL(b), s) \div 2
      wc == Mul(BW(b), c) \div 2  ws == Mul(BW(b), s) \div 2
      x == PX(b)  y == PY(b)
  IN << <<x + lc + ws, y + ls - wc>>, <<x + lc - ws, y + ls + wc>>,
        <<x - lc - ws, y - ls + wc>>, <<x - lc + ws, y - ls - wc>> >>

\* ---------------------------- history windows ---------------------------
\* the h latest slots at clock t (0-based), oldest first
Window(line, t, h) == [k \in 1..h |-> line[t - h + 1 + k]]

\* ------------------------- nearest-point filtering ----------------------
Dist2(ref, p) == LET dx == p[1] - ref[1]  dy == p[2] - ref[2] IN dx * dx + dy * dy
LiveIdx(pts) == {i \in DOMAIN pts : pts[i].valid = 1}
\* chosen: set of indices into pts
IsNearest(ref, pts, k, chosen) ==
  /\ chosen \subseteq LiveIdx(pts)
  /\ Cardinality(chosen) = Min2(k, Cardinality(LiveIdx(pts)))
  /\ \A i \in chosen, j \in LiveIdx(pts) \ chosen : Dist2(ref, pts[i].p) <= Dist2(ref, pts[j].p)

\* --------------------------------- fibers -------------------------------
Slice(line, s, n) == [k \in 1..n |-> line[s + k]]
Overwrite(line, upd, s, us, n) == [k \in DOMAIN line |-> IF k - 1 \in s..(s + n - 1) THEN upd[us + (k - s)] ELSE line[k]]
ByMask(line, upd, m) == [k \in DOMAIN line |-> IF m[k] = 1 THEN upd[k] ELSE line[k]]
RECURSIVE SumWhere(_, _, _)
SumWhere(line, m, k) == IF k > Len(line) THEN 0 ELSE (IF m[k] = 1 THEN line[k] ELSE 0) + SumWhere(line, m, k + 1)
RECURSIVE CountOnes(_, _)
CountOnes(m, k) == IF k > Len(m) THEN 0 ELSE m[k] + CountOnes(m, k + 1)
=============================================================================
