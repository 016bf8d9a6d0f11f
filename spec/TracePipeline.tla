--------------------------- MODULE TracePipeline ---------------------------
(* Judges recorded reads of real record files.  Trace fields: g (see       *)
(* Pipeline), bd (batch dimensions), shuf (1: seeded), ord (1: the order   *)
(* within a file is promised), equal (1: totals are known although the     *)
(* files are shuffled among shards).                                       *)
EXTENDS Pipeline, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, cnt, part
T == Traces[tr]
G == T.g
RECURSIVE Count(_, _, _)
\* delivered records per file after the records rs
Count(c, rs, i) == IF i > Len(rs) THEN c
                   ELSE Count([c EXCEPT ![rs[i][1]] = @ + 1], rs, i + 1)
Known(rs) == \A i \in 1..Len(rs) : rs[i][1] \in Files(G) /\ rs[i][2] \in 0..(G.n[rs[i][1]] - 1)
Start == [f \in Files(G) |-> 0]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ cnt = Start /\ part = {}
E1 == T.ev[l]
After(c, e) == IF e.op = "batch" /\ Known(e.rs) THEN Count(c, e.rs, 1) ELSE c
Next == /\ l < Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tr
        /\ LET e == T.ev[l + 1] IN
           /\ cnt' = After(cnt, e)
           /\ part' = IF e.op = "batch" /\ Known(e.rs) /\ Len(e.rs) > 0 /\ Len(e.rs) < G.B
                      THEN part \cup {ShardOf(G, e.rs[1][1])} ELSE part
C(name, ok) == IF ok THEN {} ELSE {name}
\* records of the batch belong to files of one loading shard
OneShard(rs) == \A i, j \in 1..Len(rs) : ShardOf(G, rs[i][1]) = ShardOf(G, rs[j][1])
\* cnt already includes the batch; the k-th record of f read so far has position (k-1) mod n
RECURSIVE OrderOK(_, _, _)
OrderOK(c, rs, i) == i = 0 \/ (LET f == rs[i][1] IN
    rs[i][2] = (c[f] - 1) % G.n[f] /\ OrderOK([c EXCEPT ![f] = @ - 1], rs, i - 1))
Full(e) == e.shape = T.bd
Partial(e) == /\ Len(T.bd) = 1 /\ G.drop = 0 /\ G.R > 0 /\ Len(e.shape) = 1 /\ e.shape[1] \in 1..(G.B - 1)
Epoch(f) == (cnt[f] - 1) \div G.n[f]
EpochOK(rs) == \A i \in 1..Len(rs) : LET s == ShardOf(G, rs[i][1]) IN
   \A f, h \in FilesOf(G, s) : G.n[f] = 0 \/ G.n[h] = 0 \/ cnt[f] = 0 \/ Epoch(f) = 0 \/ cnt[h] >= Epoch(f) * G.n[h]
Sum(c) == SumN(c, DOMAIN c)
BatchBad(e) ==
  IF ~Known(e.rs) THEN {"pipe.foreign"}
  ELSE C("pipe.shape", (Full(e) \/ Partial(e)) /\ Len(e.rs) = (IF Full(e) THEN G.B ELSE e.shape[1]))
    \cup C("pipe.surplus", G.R = 0 \/ \A f \in Files(G) : cnt[f] <= G.R * G.n[f])
    \cup (IF T.shuf = 1 THEN {}
          ELSE C("pipe.shard", OneShard(e.rs))
            \cup (IF T.ord = 0 THEN {} ELSE C("pipe.order", OrderOK(cnt, e.rs, Len(e.rs))) \cup C("pipe.epoch", EpochOK(e.rs)))
            \cup C("pipe.final", Full(e) \/ LET s == ShardOf(G, e.rs[1][1]) IN SumN(cnt, FilesOf(G, s)) = ShardTotal(G, s)))
\* the pipeline is exhausted
EndBad(e) ==
  C("pipe.endless", G.R > 0 \/ Live(G) = {})
  \cup C("pipe.total", G.R = 0 \/ (IF T.shuf = 1 /\ T.equal = 0 THEN G.drop = 1 \/ Sum(cnt) = Total(G) ELSE Sum(cnt) = Total(G)))
  \cup C("pipe.every", G.R = 0 \/ G.drop = 1 \/ \A f \in Files(G) : cnt[f] = G.R * G.n[f])
  \cup C("pipe.lost", G.R = 0 \/ T.shuf = 1 \/ \A s \in Shards(G) : SumN(cnt, FilesOf(G, s)) = ShardTotal(G, s))
  \cup C("pipe.model", ~("total" \in DOMAIN T) \/ (Sum(cnt) = T.total /\ l - 1 = T.nbatches))
\* the reader stopped reading an endless pipeline after many epochs
CutBad(e) == C("pipe.cut", G.R = 0)
  \cup C("pipe.starved", \A f \in Files(G) : G.n[f] = 0 \/ cnt[f] > 0)
\* same configuration read twice; different seeds; seeded against recorded order
SameBad(e) == C("pipe.reproducible", e.a = e.b)
MixBad(e) == C("pipe.mixes", \E i \in 1..Len(e.orders) : e.orders[i] # e.orders[1])
\* shuffle window of a single file: output k was among the first k + buffer inputs
WindowBad(e) == C("pipe.window", \A k \in 1..Len(e.rs) :
     LET occ == Cardinality({j \in 1..k : e.rs[j] = e.rs[k]}) IN (occ - 1) * e.n + e.rs[k] < (k - 1) + e.buffer)
\* hosts partition the files, each takes its fair share
HostBad(e) ==
  LET all == UNION {{e.files[h][i] : i \in 1..Len(e.files[h])} : h \in 1..Len(e.files)} IN
  C("host.cover", all = Files(G))
  \cup C("host.disjoint", \A h, k \in 1..Len(e.files) : h # k => {e.files[h][i] : i \in 1..Len(e.files[h])} \cap {e.files[k][i] : i \in 1..Len(e.files[k])} = {})
  \cup C("host.fair", \A h, k \in 1..Len(e.files) : Len(e.files[h]) - Len(e.files[k]) <= 1)
NameBad(e) == C("name.count", e.count = e.N)
  \cup C("name.form", \A i \in 1..Len(e.idx) : e.names[i] = ShardName(e.base, e.idx[i], e.N))
\* generator: what the consumer sees is post(pre(record)), devices first
GenBad(e) == C("gen.shape", e.shape = e.want) \cup C("gen.post", e.got = [i \in 1..Len(e.rs) |-> e.k * (100 * e.rs[i][1] + e.rs[i][2])])
RejBad(e) == C("reject." \o e.what, e.rejected = 1)
Bad == LET e == E1 IN
  CASE e.op = "batch" -> BatchBad(e) [] e.op = "end" -> EndBad(e) [] e.op = "cut" -> CutBad(e)
    [] e.op = "same" -> SameBad(e) [] e.op = "mix" -> MixBad(e) [] e.op = "window" -> WindowBad(e)
    [] e.op = "hosts" -> HostBad(e) [] e.op = "names" -> NameBad(e) [] e.op = "gen" -> GenBad(e) [] e.op = "rej" -> RejBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
