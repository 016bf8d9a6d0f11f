------------------------------- MODULE MCFollow --------------------------------
(* A follower on a polyline driven until it vanishes or the horizon: it stays *)
(* on the path's tangents, never moves backwards along it, vanishes only at   *)
(* its end.  Behaviours are replayed in the implementation.                   *)
EXTENDS Agents, TLC, Json
CONSTANTS H
VARIABLES path, inv, cur, sp, n
\* straight road along +x, a diagonal one, and one with an unrecorded gap
Way(y, x0, dx, dy, w, gap, len) == [k \in 1..len |-> <<x0 + (k - 1) * dx, y + (k - 1) * dy, w, IF k \in gap THEN 0 ELSE 1>>]
PathSet == << Way(20000, -30000, 20000, 0, 0, {}, 6), Way(0, 0, 15000, 0, 0, {3, 4}, 7), Way(0, 10000, 0, 30000, HALFPI, {}, 4),
              Way(0, 0, 0, 0, 500000, {}, 3), Way(5000, 0, -18000, 0, PI, {6}, 6) >>
Start(q) == LET w == PathSet[q][1] IN [x |-> w[1], y |-> w[2], yaw |-> w[3], vx |-> 0, vy |-> 0, valid |-> 1]
Init == path \in 1..Len(PathSet) /\ inv \in 0..1 /\ cur = Start(path) /\ sp = 0 /\ n = 0
Step(s) == LET W == Follow(cur, PathSet[path], s, 1, inv) IN
  /\ n < H /\ cur.valid = 1 /\ \A w, v \in W : w = v          \* only unambiguous steps
  /\ LET w == CHOOSE w \in W : TRUE IN
     cur' = [x |-> w.out[1], y |-> w.out[2], yaw |-> w.out[3], vx |-> w.out[4], vy |-> w.out[5], valid |-> w.valid]
  /\ sp' = s /\ n' = n + 1 /\ UNCHANGED <<path, inv>>
Next == \E s \in {0, 50000, 120000} : Step(s)
P == PathSet[path]
Along(c) == LET w == P[1] IN Mul(Cos(w[3]), c.x - w[1]) + Mul(Sin(w[3]), c.y - w[2])
Across(c) == LET w == P[1] IN Mul(Cos(w[3]), c.y - w[2]) - Mul(Sin(w[3]), c.x - w[1])
OnPath == cur.valid = 1 => Abs(Across(cur)) <= 40
Forward == [][cur'.valid = 1 => Along(cur') >= Along(cur) - 40]_<<path, inv, cur, sp, n>>
VanishOnlyAtEnd == [][(cur.valid = 1 /\ cur'.valid = 0) => (inv = 1 /\ sp' > STATIC /\ Along(Start(path)) <= Along(cur))]_<<path, inv, cur, sp, n>>
StopsAtEnd == (inv = 1 /\ cur.valid = 1) => Along(cur) <= Along([x |-> P[LastWp(P)][1], y |-> P[LastWp(P)][2]]) + 40 + 10000
\* successors of every live state, for each speed: replayed in the code
Succ(s) == Follow(cur, P, s, 1, inv)
Export == n = H \/ cur.valid = 0 \/
  PrintT("@@" \o ToJson([path |-> path, inv |-> inv, cur |-> cur,
     nx |-> Succ(50000), ny |-> Succ(120000), n0 |-> Succ(0)]))
Paths == n > 0 \/ PrintT("@@" \o ToJson([path |-> path, inv |-> inv, log |-> P]))
=============================================================================
