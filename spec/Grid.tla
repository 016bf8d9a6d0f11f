-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Discretised action spaces.  A grid g is [lo, hi, bins], one entry per   *)
(* component; component i has bins[i]+1 points from lo[i] to hi[i]; cells  *)
(* are numbered row-major (last component fastest).                        *)
(***************************************************************************)
EXTENDS Dynamics

Dims(g) == Len(g.bins)
RECURSIVE CellCount(_, _)
CellCount(bins, i) == IF i > Len(bins) THEN 1 ELSE (bins[i] + 1) * CellCount(bins, i + 1)
NCells(g) == CellCount(g.bins, 1)
Stride(g, i) == CellCount(g.bins, i + 1)
\* flat index <-> grid coordinates
Coord(g, idx) == [i \in 1..Dims(g) |-> (idx \div Stride(g, i)) % (g.bins[i] + 1)]
RECURSIVE FlatFrom(_, _, _)
FlatFrom(g, k, i) == IF i > Dims(g) THEN 0 ELSE k[i] * Stride(g, i) + FlatFrom(g, k, i + 1)
Flat(g, k) == FlatFrom(g, k, 1)
\* the action of a cell
Point(g, i, k) == g.lo[i] + BigMulDiv(k, g.hi[i] - g.lo[i], g.bins[i])
Action(g, idx) == [i \in 1..Dims(g) |-> Point(g, i, Coord(g, idx)[i])]
\* float32 resolution of the conversion
Slack(g, i) == 2 + (g.hi[i] - g.lo[i]) \div 100000
IsNearest(g, i, k, v) ==
  LET w == Clip(v, g.lo[i], g.hi[i])
  IN k \in 0..g.bins[i] /\ Abs(w - Point(g, i, k)) <= (g.hi[i] - g.lo[i]) \div (2 * g.bins[i]) + Slack(g, i)

(* ------------------ fit of a candidate by corner distance --------------- *)
\* square of the distance between the corner vectors of two equal boxes,
\* positions in 1/D, result in 1/10^4 m^2 (D/100 squared); angles 1/S
Fit(p, q, len, wid) ==
  LET dx == DivR(p[1] - q[1], 10)  dy == DivR(p[2] - q[2], 10)      \* mm
      c == S - Cos(p[3] - q[3])
      diag == DivR(len, 10) * DivR(len, 10) + DivR(wid, 10) * DivR(wid, 10)   \* mm^2
  IN DivR(dx, 2) * DivR(dx, 2) * 16 + DivR(dy, 2) * DivR(dy, 2) * 16 + 2 * BigMulDiv(diag, c, S)
=============================================================================
