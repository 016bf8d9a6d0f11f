--------------------------------- MODULE MCIdm ---------------------------------
(* The car-following law on a straight road, closed loop: an agent behind a    *)
(* stopped or slower box.  Speeds stay in range, free driving converges to     *)
(* the desired speed from below, closer or slower leads never make it faster,  *)
(* and a driver who starts with room never runs into the box ahead.            *)
EXTENDS Agents, TLC, Json
CONSTANTS VMAX, H
VARIABLES v, gap, vl, n, lead, safe
P0 == [vd |-> 300000, s0 |-> 20000, amax |-> 20000, bmax |-> 40000, hw |-> 2000, pw |-> 4, fromcur |-> 1, look |-> 10, n |-> 10, dist |-> 100000]
LEN == 40000
\* gap: bumper to bumper.  The look-ahead point at distance k metres blocks
\* when its box reaches the box ahead
Reach == {k \in 1..11 : (k - 1) * 10000 > gap}
LeadOf == IF Reach = {} THEN NOLEAD ELSE LET k == MinSet(Reach) IN [k |-> k, d |-> (k - 1) * 10000, v |-> vl]
Init == v = 0 /\ gap = 0 /\ vl = 0 /\ n = -1 /\ lead = 0 /\ safe = 0
Pick == n = -1 /\ v' \in {0, 10000, 30000, 60000, 100000, VMAX} /\ gap' \in {5000, 15000, 35000, 62000, 95000, 150000, 500000} /\ vl' \in {0, 20000, 80000} /\ n' = 0 /\ lead' \in 0..1
        /\ safe' = IF v' <= 30000 /\ gap' >= 62000 THEN 1 ELSE 0
Drive == /\ n >= 0 /\ n < H
         /\ LET ld == IF lead = 1 THEN LeadOf ELSE NOLEAD
                nv == NewSpeed(P0, v, ld) IN
            /\ v' = nv
            /\ gap' = IF lead = 1 THEN Min2(gap + DivR(vl, DT) - DivR(v + nv, 2 * DT), 1000000) ELSE gap
         /\ n' = n + 1 /\ UNCHANGED <<vl, lead, safe>>
Next == Pick \/ Drive
Range == v >= 0 /\ v <= Max2(VMAX, P0.vd + 10)
FreeRises == [][(n >= 0 /\ lead = 0 /\ v < P0.vd - 100) => v' > v]_<<v, gap, vl, n, lead, safe>>
\* the law itself, at every visited speed
Monotone == (lead = 0 /\ vl = 0 /\ gap = 5000 /\ n >= 0) => \A g \in {10000, 30000, 70000}, s \in {0, 50000, 100000} :
    LET at(d, w) == NewSpeed(P0, v, [k |-> 2, d |-> d, v |-> w]) IN
    /\ at(g, s) <= at(g + 20000, s) /\ at(g, s) <= at(g, s + 30000) + 1 /\ at(g, s) <= NewSpeed(P0, v, NOLEAD)
Cells == n = 0 => PrintT("@@" \o ToJson([v |-> v, gap |-> gap, vl |-> vl, lead |-> lead, nv |-> NewSpeed(P0, v, IF lead = 1 THEN LeadOf ELSE NOLEAD)]))
\* never runs into what is ahead when it started slowly and with room
NoCrash == (safe = 1 /\ n >= 0) => gap > 0
=============================================================================
