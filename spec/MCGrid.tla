------------------------------- MODULE MCGrid -------------------------------
(* Every cell of every small grid: numbering is a bijection and rounding     *)
(* lands on a nearest point.  Cells are exported and replayed in the code.   *)
EXTENDS Grid, TLC, Json, FiniteSets
CONSTANTS MAXB
VARIABLES g, idx
Bounds == <<[lo |-> -600000, hi |-> 600000], [lo |-> -314159, hi |-> 314159], [lo |-> 50000, hi |-> 450000], [lo |-> -100000, hi |-> 30000]>>
Grids == {[lo |-> [i \in 1..Len(b) |-> Bounds[i].lo], hi |-> [i \in 1..Len(b) |-> Bounds[i].hi], bins |-> b] :
          b \in UNION {[1..n -> 1..MAXB] : n \in 1..3}}
Init == g \in Grids /\ idx = -1
Next == idx = -1 /\ idx' \in 0..(NCells(g) - 1) /\ UNCHANGED g
Bijection == idx >= 0 => Flat(g, Coord(g, idx)) = idx /\ \A i \in 1..Dims(g) : Coord(g, idx)[i] \in 0..g.bins[i]
Inside == idx >= 0 => \A i \in 1..Dims(g) : Action(g, idx)[i] >= g.lo[i] /\ Action(g, idx)[i] <= g.hi[i]
Distinct == idx > 0 => Action(g, idx) # Action(g, idx - 1)
OwnNearest == idx >= 0 => \A i \in 1..Dims(g) :
   LET a == Action(g, idx) IN /\ IsNearest(g, i, Coord(g, idx)[i], a[i])
                              /\ \A k \in 0..g.bins[i] : k # Coord(g, idx)[i] => ~IsNearest(g, i, k, a[i])
Export == idx < 0 \/ PrintT("@@" \o ToJson([b |-> g.bins, k |-> idx, a |-> Action(g, idx)]))
=============================================================================
