-------------------------------- MODULE MCMerge --------------------------------
(* All disjoint claim patterns of up to 3 actors over 3 objects: folding the  *)
(* outputs actor by actor gives every claimed object its owner's action, and  *)
(* any order of the actors gives the same.  Every case is replayed.           *)
EXTENDS Agents, TLC, Json
CONSTANTS NA, NO
VARIABLES own, ord
\* owner of each object: 0 (nobody) or an actor
Perms == {q \in [1..NA -> 1..NA] : \A a, b \in 1..NA : a # b => q[a] # q[b]}
Init == own = [i \in 1..NO |-> 0] /\ ord = << >>
Next == ord = << >> /\ own' \in [1..NO -> 0..NA] /\ ord' \in Perms
Outs == [a \in 1..NA |-> [claim |-> [i \in 1..NO |-> IF own[i] = ord[a] THEN 1 ELSE 0],
                          act |-> [i \in 1..NO |-> 10 * ord[a] + i], valid |-> [i \in 1..NO |-> (ord[a] + i) % 2]]]
RECURSIVE Fold(_, _, _)
Fold(outs, acc, a) == IF a > Len(outs) THEN acc
  ELSE Fold(outs, [i \in 1..NO |-> IF outs[a].claim[i] = 1 THEN <<outs[a].act[i], outs[a].valid[i]>> ELSE acc[i]], a + 1)
Result == Fold(Outs, [i \in 1..NO |-> <<Outs[1].act[i], Outs[1].valid[i]>>], 2)
Sound == ord # << >> => /\ Disjoint(Outs)
                       /\ \A i \in 1..NO : own[i] # 0 => Result[i] = MergedAct(Outs, i) /\ Result[i] = <<10 * own[i] + i, (own[i] + i) % 2>>
Export == ord = << >> \/ PrintT("@@" \o ToJson([own |-> own, ord |-> ord, res |-> Result]))
=============================================================================
