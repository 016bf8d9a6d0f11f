------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The record pipeline of waymax.dataloader: files are distributed to      *)
(* hosts and then to loading shards, every shard reads its files to the    *)
(* end, repeats whole epochs, groups records into batches, and the batches *)
(* of the shards are interleaved.                                          *)
(*                                                                         *)
(* Configuration G: n = records per file (in file order), S = loading      *)
(* shards, R = epochs (0: for ever), B = records per batch (1: unbatched), *)
(* drop = 1 when incomplete batches are dropped.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Files(G) == 1..Len(G.n)
ShardOf(G, f) == (f - 1) % G.S
FilesOf(G, s) == {f \in Files(G) : ShardOf(G, f) = s}
Shards(G) == 0..(G.S - 1)
RECURSIVE SumN(_, _)
SumN(n, fs) == IF fs = {} THEN 0 ELSE LET f == CHOOSE f \in fs : TRUE IN n[f] + SumN(n, fs \ {f})
ShardSize(G, s) == SumN(G.n, FilesOf(G, s))
\* records one shard delivers altogether (R > 0): at most one incomplete batch is lost
ShardTotal(G, s) == LET t == ShardSize(G, s) * G.R IN IF G.drop = 1 THEN (t \div G.B) * G.B ELSE t
RECURSIVE SumShards(_, _)
SumShards(G, k) == IF k = 0 THEN 0 ELSE ShardTotal(G, k - 1) + SumShards(G, k - 1)
Total(G) == SumShards(G, G.S)
Live(G) == {s \in Shards(G) : ShardSize(G, s) > 0}
\* batches delivered altogether
RECURSIVE SumBatches(_, _)
SumBatches(G, k) == IF k = 0 THEN 0 ELSE ((ShardTotal(G, k - 1) + G.B - 1) \div G.B) + SumBatches(G, k - 1)
Batches(G) == SumBatches(G, G.S)

\* ---- shard file names: base@N denotes base-XXXXX-of-YYYYY ----
RECURSIVE Digits(_)
Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
Digits(k) == IF k < 10 THEN Digit(k) ELSE Digits(k \div 10) \o Digit(k % 10)
RECURSIVE NDigits(_)
NDigits(k) == IF k < 10 THEN 1 ELSE 1 + NDigits(k \div 10)
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
Pad(k, w) == Zeros(w - NDigits(k)) \o Digits(k)
Width(N) == IF NDigits(N) > 5 THEN NDigits(N) ELSE 5
ShardName(base, i, N) == base \o "-" \o Pad(i, Width(N)) \o "-of-" \o Pad(N, Width(N))
=============================================================================
