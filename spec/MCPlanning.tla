------------------------------ MODULE MCPlanning ------------------------------
(***************************************************************************)
(* All ways in which a planner, two sim agents and the log can share three *)
(* objects: ego position, initially overlapping pairs, claims of both      *)
(* agents over two consecutive steps (agents switch claims by their own    *)
(* counter).  Each state is printed with the source of every object and    *)
(* replayed in the real environment.                                       *)
(***************************************************************************)
EXTENDS Planning, TLC, Json
CONSTANT N
VARIABLES ph, ego, pair, cl, cnt, src
vars == <<ph, ego, pair, cl, cnt, src>>
O == 1..N
Pairs == {{}} \cup {{a, b} : a \in O, b \in O \ {1}}
Vec(s) == [o \in O |-> IF o \in s THEN 1 ELSE 0]
Init == ph = 0 /\ ego = 1 /\ pair = {} /\ cl = <<>> /\ cnt = <<0, 0>> /\ src = <<>>
\* inc of the agents: 1 and 2; two claim tables of length two each
Inc == <<1, 2>>
claimAt(i, o) == o \in cl[i][(cnt[i] % 2) + 1]
Pick == /\ ph = 0 /\ ph' = 1
        /\ ego' \in O
        /\ pair' \in {p \in Pairs : Cardinality(p) # 1}
        /\ \E a1 \in SUBSET (O \ {ego'}), a2 \in SUBSET (O \ {ego'}), b1 \in SUBSET (O \ {ego'}) :
              cl' = << <<a1, a2>>, <<b1, a1>> >>
        /\ cnt' \in {<<0, 0>>, <<1, 0>>}
        /\ src' = <<>>
Step == /\ ph \in {1, 2} /\ ph' = ph + 1
        /\ src' = [o \in O |-> SourceOf(o, ego, o \in pair, claimAt, 2)]
        /\ cnt' = [i \in 1..2 |-> cnt[i] + Inc[i]]
        /\ UNCHANGED <<ego, pair, cl>>
Next == Pick \/ Step
\* what the user relies on
EgoIsPlanners == ph > 1 => src[ego] = -1 /\ \A o \in O \ {ego} : src[o] # -1
NeverTakenOver == ph > 1 => \A o \in pair \ {ego} : src[o] = 0
LastWins == ph > 1 => \A o \in O : src[o] > 0 =>
   LET c == [i \in 1..2 |-> cnt[i] - Inc[i]] IN
     /\ o \in cl[src[o]][(c[src[o]] % 2) + 1]
     /\ \A j \in (src[o] + 1)..2 : o \notin cl[j][(c[j] % 2) + 1]
UnclaimedReplay == ph > 1 => \A o \in O \ {ego} :
   (\A i \in 1..2 : o \notin cl[i][((cnt[i] - Inc[i]) % 2) + 1]) => src[o] = 0
Report == ph < 2 \/ PrintT("@@" \o ToJson([ph |-> ph, ego |-> ego, pair |-> pair, src |-> src,
   cl |-> [i \in 1..2 |-> [k \in 1..2 |-> Vec(cl[i][k])]],
   c0 |-> [i \in 1..2 |-> cnt[i] - Inc[i] * (ph - 1)]]))
=============================================================================
