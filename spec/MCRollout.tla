------------------------------ MODULE MCRollout ------------------------------
(***************************************************************************)
(* The rollout as an explicit loop against the manual loop, both run over  *)
(* abstract environment and actor state: the aligned output of the first   *)
(* equals the history of the second for every length.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxN, T, W
VARIABLES n, s, a, out, hs, ha, done
vars == <<n, s, a, out, hs, ha, done>>
\* abstract state = <<clock, digest>>; actor state = counter
StepF(st, act) == <<st[1] + 1, (3 * st[2] + act + 1) % 17>>
Sel(st, c) == (st[2] + 2 * c) % 5
NextC(st, c) == (c + 1 + st[2]) % 7
Reset(seed) == <<W - 1, seed>>
Init == \E seed \in 0..2, k \in 0..MaxN : /\ n = k /\ k <= T - W
           /\ s = Reset(seed) /\ a = seed % 2 /\ out = <<>> /\ hs = <<Reset(seed)>> /\ ha = <<seed % 2>> /\ done = FALSE
\* one scan iteration: emits the entry of the state it starts from
Iter == /\ ~done /\ Len(out) < n
        /\ LET act == Sel(s, a) IN
             /\ out' = Append(out, [st |-> s, act |-> act, c |-> a])
             /\ s' = StepF(s, act) /\ a' = NextC(s, a)
             /\ hs' = Append(hs, StepF(s, act)) /\ ha' = Append(ha, NextC(s, a))
        /\ UNCHANGED <<n, done>>
Close == /\ ~done /\ Len(out) = n /\ done' = TRUE
         /\ out' = Append(out, [st |-> s, act |-> -1, c |-> a])
         /\ UNCHANGED <<n, s, a, hs, ha>>
Next == Iter \/ Close
Aligned == done => /\ Len(out) = n + 1
                   /\ \A k \in 1..(n + 1) : out[k].st = hs[k] /\ out[k].c = ha[k] /\ out[k].st[1] = W - 1 + (k - 1)
                   /\ \A k \in 1..n : out[k].act = Sel(hs[k], ha[k]) /\ hs[k + 1] = StepF(hs[k], out[k].act)
                   /\ out[n + 1].act = -1
NeverPastEnd == s[1] <= T - 1
=============================================================================
