------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* What a picture of a scene shows.  Lengths 1/D, angles 1/S; a colour is  *)
(* <<r, g, b>> of 0..255.  A pose is <<x, y, length, width, yaw, valid>>.  *)
(*                                                                         *)
(* The highlighted step's valid objects are full boxes with a heading      *)
(* arrow, later steps small ones, earlier steps dots; objects in contact   *)
(* at the highlighted step are drawn once more, on top, in red.            *)
(***************************************************************************)
EXTENDS Metrics, TLC

CONTROLLED == <<0, 153, 204>>
CONTEXT == <<153, 153, 153>>
HISTORY == <<204, 204, 204>>
RED == <<255, 0, 0>>
Colours == {CONTROLLED, CONTEXT, RED}
NONE == -1                      \* no highlighted step
SMALL == 10                     \* shrinking of the boxes of later steps

\* how object i's pose at step k (0-based) is shown when t is highlighted
Style(valid, k, t) ==
  IF valid = 0 THEN "none"
  ELSE IF t = NONE \/ k < t THEN "dot"
  ELSE IF k = t THEN "full" ELSE "small"
ColourOf(controlled) == IF controlled = 1 THEN CONTROLLED ELSE CONTEXT
Labelled(valid, k, t) == t # NONE /\ k = t /\ valid = 1

Shrunk(b) == <<b[1], b[2], DivR(b[3], SMALL), DivR(b[4], SMALL), b[5], b[6]>>
Slots(poses) == {<<i, k>> : i \in DOMAIN poses, k \in 1..Len(poses[1])}
\* (box, colour) of every object and step that has one
BoxesOf(poses, ctrl, t) ==
  {[box |-> IF Style(poses[s[1]][s[2]][6], s[2] - 1, t) = "full" THEN poses[s[1]][s[2]] ELSE Shrunk(poses[s[1]][s[2]]),
    col |-> ColourOf(ctrl[s[1]]), at |-> s] :
   s \in {q \in Slots(poses) : Style(poses[q[1]][q[2]][6], q[2] - 1, t) \in {"full", "small"}}}
DotsOf(poses, t) == {s \in Slots(poses) : Style(poses[s[1]][s[2]][6], s[2] - 1, t) = "dot"}
\* contact at the highlighted step: "yes" | "no" | "either"
Contact(poses, t, i) == LET now == [j \in DOMAIN poses |-> poses[j][t + 1]] IN Overlap(now, i)

\* ------------------------------- outlines -------------------------------
TOLP == 40
NearPt(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol)
Corner4(b) ==
  LET c == Cos(BA(b))  s == Sin(BA(b))
      lc == Mul(BL(b), c) \div 2  ls == Mul(BL(b), s) \div 2
      wc == Mul(BW(b), c) \div 2  ws == Mul(BW(b), s) \div 2
  IN << <<PX(b) + lc + ws, PY(b) + ls - wc>>, <<PX(b) + lc - ws, PY(b) + ls + wc>>,
        <<PX(b) - lc - ws, PY(b) - ls + wc>>, <<PX(b) - lc + ws, PY(b) - ls - wc>> >>
\* the tip of the heading and the middles of the two sides
Arrow3(b) ==
  LET c == Cos(BA(b))  s == Sin(BA(b))
      lc == Mul(BL(b), c) \div 2  ls == Mul(BL(b), s) \div 2
      wc == Mul(BW(b), c) \div 2  ws == Mul(BW(b), s) \div 2
  IN << <<PX(b) + lc, PY(b) + ls>>, <<PX(b) + ws, PY(b) - wc>>, <<PX(b) - ws, PY(b) + wc>> >>
\* a closed line through the n given points, from any of them, either way round
Around(line, pts) ==
  LET n == Len(pts) IN
  /\ Len(line) = n + 1
  /\ \E s \in 0..(n - 1), d \in {1, n - 1} : \A i \in 1..(n + 1) : NearPt(line[i], pts[((s + d * (i - 1)) % n) + 1], TOLP)
IsBox(line, b) == Around(line, Corner4(b))
IsArrow(line, b) == Around(line, Arrow3(b))

\* ----------------------------- map and lights ---------------------------
\* shown map point types and their colours
MapColour == (1 :> <<230, 230, 230>>) @@ (2 :> <<230, 230, 230>>) @@ (3 :> <<230, 230, 230>>)
          @@ (15 :> <<80, 80, 80>>) @@ (16 :> <<80, 80, 80>>)
          @@ (17 :> RED) @@ (18 :> <<200, 200, 200>>) @@ (19 :> <<200, 200, 200>>)
Shown(ty) == ty \in DOMAIN MapColour
LightColour == (0 :> <<191, 191, 191>>) @@ (1 :> RED) @@ (2 :> <<255, 255, 0>>) @@ (3 :> <<0, 255, 0>>) @@ (4 :> RED)
            @@ (5 :> <<255, 255, 0>>) @@ (6 :> <<0, 255, 0>>) @@ (7 :> <<255, 255, 0>>) @@ (8 :> <<255, 255, 0>>)
ON_ROUTE == <<0, 191, 191>>
OFF_ROUTE == <<0, 128, 0>>
\* a point glyph: [col, x, y, ms] with ms the marker size
HISTMS == 2  MAPMS == 2  LIGHTMS == 4  PATHMS == 5

\* --------------------------------- view ---------------------------------
Centre(poses, t, who) == <<poses[who][t + 1][1], poses[who][t + 1][2]>>
View(c, v) == <<c[1] - v.back_x, c[1] + v.front_x, c[2] - v.back_y, c[2] + v.front_y>>
=============================================================================
