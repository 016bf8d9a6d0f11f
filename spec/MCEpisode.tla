------------------------------ MODULE MCEpisode ------------------------------
(***************************************************************************)
(* Every history of D calls (reset, step, read) on a generator whose       *)
(* scenarios leave 0, 1 or 2 steps, in every order; printed with the       *)
(* outcome of each call and replayed on the real wrapper.                  *)
(***************************************************************************)
EXTENDS Episode, TLC, Json
CONSTANTS W, D
VARIABLES s, hist, lens
vars == <<s, hist, lens>>
Orders == {<<1, 2, 0>>, <<2, 0, 1>>, <<0, 1, 2>>}
hz(n) == W + lens[((n - 1) % 3) + 1]
Init == s = Fresh /\ hist = <<>> /\ lens \in Orders
Do(op, r) == s' = r[1] /\ hist' = Append(hist, [op |-> op, out |-> r[2], n |-> r[1].n, t |-> r[1].t]) /\ UNCHANGED lens
Next == /\ Len(hist) < D
        /\ \/ Do("reset", DoReset(s, W, hz))
           \/ Do("step", DoStep(s, FALSE))
           \/ Do("read", DoRead(s))
\* ---- what the protocol guarantees, over whole histories ----
Outs == [k \in DOMAIN hist |-> hist[k].out]
Timed(k) == Outs[k] \in {"FIRST", "MID", "LAST"}
PrevTimed(k) == {j \in 1..(k - 1) : Timed(j)}
Prev(k) == CHOOSE j \in PrevTimed(k) : \A i \in PrevTimed(k) : i <= j
\* MID/LAST only continue an unfinished episode
Continues == \A k \in DOMAIN hist : Outs[k] \in {"MID", "LAST"} =>
   PrevTimed(k) # {} /\ Outs[Prev(k)] \in {"FIRST", "MID"} /\ hist[k].t = hist[Prev(k)].t + 1
FirstOnReset == \A k \in DOMAIN hist : (Outs[k] = "FIRST") => hist[k].op = "reset" /\ hist[k].t = W - 1
LastAtEnd == \A k \in DOMAIN hist : Outs[k] \in {"MID", "LAST"} => ((Outs[k] = "LAST") <=> hist[k].t = hz(hist[k].n) - 1)
InOrder == \A k \in DOMAIN hist : hist[k].n = (IF k = 1 THEN 0 ELSE hist[k - 1].n) + (IF hist[k].op = "reset" THEN 1 ELSE 0)
BeforeReset == \A k \in DOMAIN hist : (\A j \in 1..k : hist[j].op # "reset") => Outs[k] = NotInit
AfterLast == \A k \in DOMAIN hist : k > 1 /\ hist[k].op = "step" /\ PrevTimed(k) # {} /\ Outs[Prev(k)] = "LAST"
   /\ (\A j \in Prev(k)..k : hist[j].op # "reset") => Outs[k] = Finished
Report == Len(hist) < D \/ PrintT("@@" \o ToJson([lens |-> lens, hist |-> hist]))
=============================================================================
