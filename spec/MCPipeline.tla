---------------------------- MODULE MCPipeline ----------------------------
(* The pipeline as a transition system: every interleaving of the shards   *)
(* and, inside a shard, of its files (the reader promises only the order   *)
(* within a file).  Checked: the totals the judge uses, exactness per      *)
(* epoch, and that under fair shards every file keeps contributing.        *)
EXTENDS Pipeline, TLC, Json
CONSTANTS MaxF, MaxN, MaxS, Rs, MaxB, Fill
VARIABLES G, pos, ep, buf, got, dl, fin, last
vars == <<G, pos, ep, buf, got, dl, fin, last>>

\* pos[f]: next record of f in this epoch; buf[s]: files of the records collected;
\* got[f]: records of f read over all epochs; dl[f]: delivered; last: files of the last batch
Init == /\ G = [n |-> <<>>, S |-> 1, R |-> 0, B |-> 1, drop |-> 0]
        /\ pos = <<>> /\ ep = <<>> /\ buf = <<>> /\ got = <<>> /\ dl = <<>> /\ fin = {} /\ last = {}
Setup == /\ G.n = <<>>
         /\ \E F \in 1..MaxF : \E n \in [1..F -> (IF Fill THEN 1 ELSE 0)..MaxN], s \in 1..MaxS, r \in Rs, b \in 1..MaxB, d \in {0, 1} :
              /\ G' = [n |-> n, S |-> s, R |-> r, B |-> b, drop |-> d]
              /\ pos' = [f \in 1..F |-> 0] /\ got' = [f \in 1..F |-> 0] /\ dl' = [f \in 1..F |-> 0]
              /\ ep' = [k \in 0..(s - 1) |-> 1] /\ buf' = [k \in 0..(s - 1) |-> <<>>]
         /\ UNCHANGED <<fin, last>>
Ready == G.n # <<>>
Cap(k) == IF G.R = 0 THEN 0 ELSE k      \* counters are not kept for the endless pipeline
Read(s, f) ==
  /\ Ready /\ f \in FilesOf(G, s) /\ pos[f] < G.n[f] /\ Len(buf[s]) < G.B
  /\ pos' = [pos EXCEPT ![f] = @ + 1] /\ got' = [got EXCEPT ![f] = Cap(@ + 1)]
  /\ buf' = [buf EXCEPT ![s] = Append(@, f)]
  /\ UNCHANGED <<G, ep, dl, fin, last>>
Add(d, b) == [f \in DOMAIN d |-> Cap(d[f] + Cardinality({i \in 1..Len(b) : b[i] = f}))]
Out(s) == /\ dl' = Add(dl, buf[s]) /\ last' = {buf[s][i] : i \in 1..Len(buf[s])}
Emit(s) ==
  /\ Ready /\ Len(buf[s]) = G.B /\ Out(s) /\ buf' = [buf EXCEPT ![s] = <<>>]
  /\ UNCHANGED <<G, pos, ep, got, fin>>
Exhausted(s) == \A f \in FilesOf(G, s) : pos[f] = G.n[f]
Roll(s) ==
  /\ Ready /\ Exhausted(s) /\ ShardSize(G, s) > 0 /\ s \notin fin
  /\ (G.R = 0 \/ ep[s] < G.R)
  /\ ep' = [ep EXCEPT ![s] = IF G.R = 0 THEN 1 ELSE @ + 1]
  /\ pos' = [f \in DOMAIN pos |-> IF f \in FilesOf(G, s) THEN 0 ELSE pos[f]]
  /\ UNCHANGED <<G, buf, got, dl, fin, last>>
Finish(s) ==
  /\ Ready /\ s \in Shards(G) /\ s \notin fin /\ Exhausted(s) /\ Len(buf[s]) < G.B
  /\ (ShardSize(G, s) = 0 \/ (G.R > 0 /\ ep[s] = G.R))
  /\ fin' = fin \cup {s}
  /\ IF buf[s] # <<>> /\ G.drop = 0 THEN Out(s) ELSE UNCHANGED <<dl, last>>
  /\ buf' = [buf EXCEPT ![s] = <<>>]
  /\ UNCHANGED <<G, pos, ep, got>>
Done == Ready /\ fin = Shards(G)
SNext(s) == Emit(s) \/ Roll(s) \/ Finish(s) \/ \E f \in 1..MaxF : Read(s, f)
Next == Setup \/ (Ready /\ \E s \in Shards(G) : SNext(s)) \/ (Done /\ UNCHANGED vars)
Step(s) == Ready /\ s \in Shards(G) /\ SNext(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Setup) /\ \A s \in 0..(MaxS - 1) : WF_vars(Step(s))

\* --- safety (finite epochs) ---
DeliveredTotal == SumN(dl, DOMAIN dl)
TotalRight == Done /\ G.R > 0 => /\ DeliveredTotal = Total(G)
                                 /\ (G.drop = 0 => \A f \in Files(G) : dl[f] = G.R * G.n[f])
NeverTooMany == \A f \in DOMAIN dl : dl[f] <= got[f] /\ (G.R > 0 => got[f] <= G.R * G.n[f])
\* within a shard no file is an epoch ahead of another
SameEpoch == G.R > 0 => \A f \in DOMAIN got : LET s == ShardOf(G, f) IN
    got[f] = (ep[s] - 1) * G.n[f] + pos[f]
LossBound == Done /\ G.R > 0 => \A s \in Shards(G) :
    SumN(got, FilesOf(G, s)) - SumN(dl, FilesOf(G, s)) < G.B
\* --- liveness ---
Finishes == (Ready /\ G.R > 0) ~> Done
Contributes == \A f \in 1..MaxF : (Ready /\ G.R = 0 /\ f \in DOMAIN pos /\ G.n[f] > 0) ~> (f \in last)
Export == ~Done \/ PrintT("@@" \o ToJson([n |-> G.n, S |-> G.S, R |-> G.R, B |-> G.B, drop |-> G.drop, total |-> DeliveredTotal, batches |-> Batches(G)]))
=============================================================================
