------------------------------- MODULE MCMetrics -------------------------------
(* Design check of the overlap predicate: on a grid of axis-aligned and        *)
(* rotated unit-size boxes it is symmetric, agrees with exact integer          *)
(* rectangle intersection for axis-aligned boxes and is invariant under        *)
(* quarter turns of the scene.                                                 *)
EXTENDS Metrics, TLC
VARIABLES a, b, stage
M == 10000
Pos == {-3, -1, 0, 2}
Yaws == {0, HALFPI, 700000}
Box(x, y, len, wid, yaw) == <<x * M, y * M, len * M, wid * M, yaw, 1>>
Init == /\ a \in {Box(0, 0, len, wid, yw) : len \in {2, 4}, wid \in {1, 2}, yw \in Yaws}
        /\ b = a /\ stage = 0
Next == /\ stage = 0 /\ stage' = 1 /\ a' = a
        /\ b' \in {Box(x, y, len, wid, yw) : x \in Pos, y \in Pos, len \in {1, 4}, wid \in {1, 3}, yw \in Yaws}
Symmetric == Meets(a, b) = Meets(b, a)
\* extents of a box at a multiple of a quarter turn
EX(r) == IF r[5] = 0 THEN r[3] ELSE r[4]
EY(r) == IF r[5] = 0 THEN r[4] ELSE r[3]
AxisAligned == (a[5] # 700000 /\ b[5] # 700000) =>
   LET gx == 2 * Abs(a[1] - b[1]) - (EX(a) + EX(b))  gy == 2 * Abs(a[2] - b[2]) - (EY(a) + EY(b))
       g == Max2(gx, gy)
   IN IF g < -100 THEN Meets(a, b) = "yes" ELSE IF g > 100 THEN Meets(a, b) = "no" ELSE Meets(a, b) = "either"
Turn(r) == <<-r[2], r[1], r[3], r[4], r[5] + HALFPI, r[6]>>
Turned == LET v == Meets(a, b)  w == Meets(Turn(a), Turn(b)) IN v = "either" \/ w = "either" \/ v = w
Centre == (a[1] = b[1] /\ a[2] = b[2]) => Meets(a, b) = "yes"
CornersOn == \A p \in Corners(b) : Abs(Hypot(2 * (p[1] - b[1]), 2 * (p[2] - b[2])) - Hypot(b[3], b[4])) <= 10
=============================================================================
