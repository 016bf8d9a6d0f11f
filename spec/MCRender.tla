------------------------------ MODULE MCRender ------------------------------
(* Every small scene: which of two objects is valid at which of three steps, *)
(* who is controlled, whether they touch, which step is highlighted.  TLC    *)
(* exports how each slot is shown; the scenes are replayed in the real plot. *)
EXTENDS Render, Json
VARIABLE g
N == 2
T == 3
Init == g = <<>>
Next == /\ g = <<>>
        /\ \E v \in [1..N -> [1..T -> {0, 1}]], c \in [1..N -> {0, 1}], near \in {0, 1}, t \in {NONE} \cup 0..(T - 1) :
             g' = [v |-> v, c |-> c, near |-> near, t |-> t]
\* one metre by two, in contact when near
Pose(i, k) == <<(i - 1) * (IF g.near = 1 THEN 8000 ELSE 60000) + k * 3000, k * 2000, 20000, 10000, k * 500000, g.v[i][k]>>
Poses == [i \in 1..N |-> [k \in 1..T |-> Pose(i, k)]]
Show == [i \in 1..N |-> [k \in 1..T |-> Style(g.v[i][k], k - 1, g.t)]]
Touch == [i \in 1..N |-> IF g.t = NONE THEN "no" ELSE Contact(Poses, g.t, i)]
\* every valid slot is shown exactly once, and only valid ones are
OncePerSlot == g = <<>> \/ \A i \in 1..N, k \in 1..T :
   (Show[i][k] = "none") = (g.v[i][k] = 0)
FullOnlyNow == g = <<>> \/ \A i \in 1..N, k \in 1..T : Show[i][k] = "full" => k - 1 = g.t
BoxesAreSlots == g = <<>> \/ g.t = NONE \/
   Cardinality(BoxesOf(Poses, g.c, g.t)) + Cardinality(DotsOf(Poses, g.t)) = Cardinality({s \in Slots(Poses) : g.v[s[1]][s[2]] = 1})
ContactSymmetric == g = <<>> \/ (Touch[1] = "yes") = (Touch[2] = "yes")
ContactDecided == g = <<>> \/ \A i \in 1..N : (Touch[i] = "yes") = (g.t # NONE /\ g.near = 1 /\ g.v[1][g.t + 1] = 1 /\ g.v[2][g.t + 1] = 1) /\ Touch[i] # "either"
Export == g = <<>> \/ PrintT("@@" \o ToJson([v |-> g.v, c |-> g.c, t |-> g.t, poses |-> Poses, show |-> Show, touch |-> Touch]))
=============================================================================
