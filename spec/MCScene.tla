------------------------------- MODULE MCScene -------------------------------
(* Design check of Scene: rigid motions preserve distances, invert and      *)
(* compose; corners are ordered counter-clockwise at half extents; fiber     *)
(* operations satisfy the read-over-write laws.                              *)
EXTENDS Scene, TLC
VARIABLES a, b, p, stage
Yaws == {0, 400000, HALFPI, 2500000, PI, -1000000, -HALFPI, 9000000}
Xs == {-400000, 123457}
Poses == {<<x, y, w, 1>> : x \in Xs, y \in {-70001, 0}, w \in Yaws}
Init == a \in Poses /\ b = a /\ p = <<0, 0>> /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ a' = a /\ b' \in Poses /\ p' \in {<<x, y>> : x \in {-400000, 0, 123457}, y \in {-30000, 90000}}
Isometry == Near(Hypot(p[1] - b[1], p[2] - b[2]),
                 Hypot(ToLocal(a, p)[1] - ToLocal(a, b)[1], ToLocal(a, p)[2] - ToLocal(a, b)[2]), 12)
RoundTrip == NearP(ToGlobal(a, ToLocal(a, p)), p, 8)
Composes == NearP(ToLocal(PoseIn(a, b), ToLocal(a, p)), ToLocal(b, p), 16)
Inverts == NearP(ToLocal(InversePose(a), ToLocal(a, p)), p, 16)
SelfOrigin == NearP(ToLocal(a, a), <<0, 0>>, 0) /\ AngDist(YawLocal(a, a[3]), 0) = 0
WrapOk == Wrap(a[3]) \in -PI..PI /\ AngDist(Wrap(a[3]), a[3]) <= 2
BX == <<b[1], b[2], 45000, 20000, b[3], 1>>
CornerOk ==
  LET q == BoxCorners(BX) IN
  /\ \A i \in 1..4 : Near(Hypot(2 * (q[i][1] - BX[1]), 2 * (q[i][2] - BX[2])), Hypot(45000, 20000), 10)
  /\ \A i \in 1..4 : LET l == ToLocal(<<b[1], b[2], b[3], 1>>, q[i]) IN
        NearP(l, << (IF i <= 2 THEN 1 ELSE -1) * 22500, (IF i \in {2, 3} THEN 1 ELSE -1) * 10000>>, 8)
Line == <<a[1], a[2], a[3], 5, p[1], p[2]>>
Upd == <<1, 2, 3, b[1]>>
ReadOverWrite == \A s \in 0..3, us \in 0..1, n \in 1..3 :
   LET o == Overwrite(Line, Upd, s, us, n) IN
   /\ Slice(o, s, n) = Slice(Upd, us, n)
   /\ \A k \in DOMAIN Line : (k <= s \/ k > s + n) => o[k] = Line[k]
   /\ Overwrite(Line, Line, s, s, n) = Line
MaskLaw == LET m == <<1, 0, 1, 1, 0, 0>>  w == [k \in 1..6 |-> 1 - m[k]]  u == <<9, 8, 7, 6, 5, 4>> IN
   ByMask(ByMask(Line, u, m), Line, m) = Line /\ ByMask(Line, u, m) = ByMask(u, Line, w)
=============================================================================
