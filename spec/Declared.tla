------------------------------ MODULE Declared ------------------------------
(***************************************************************************)
(* What environments and wrappers declare about themselves (their specs),  *)
(* which actions and configurations they accept, and what they produce.    *)
(* Bounds are in 1/1000; +-INF stands for no bound.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == 1073741823

\* ---------------------------- action spaces -----------------------------
\* m: [kind, lo, hi, bins, norm] -- lo/hi: the configured limits per
\* component of the continuous action
Cells(bins) == LET RECURSIVE P(_)
                   P(i) == IF i = 0 THEN 1 ELSE (bins[i] + 1) * P(i - 1)
               IN P(Len(bins))
Rep(v, n) == [i \in 1..n |-> v]
ActDim(m) == CASE m.bins # <<>> -> 1
               [] m.kind = "state" -> 5
               [] m.kind \in {"global", "local"} -> 3
               [] m.kind = "bike" -> 2
ActLo(m) == IF m.bins # <<>> THEN <<0>>
            ELSE IF m.kind = "state" THEN Rep(-INF, 5)
            ELSE IF m.norm = 1 THEN Rep(-1000, 2) ELSE [i \in 1..ActDim(m) |-> -m.lim[i]]
ActHi(m) == IF m.bins # <<>> THEN <<1000 * (Cells(m.bins) - 1)>>
            ELSE IF m.kind = "state" THEN Rep(INF, 5)
            ELSE IF m.norm = 1 THEN Rep(1000, 2) ELSE m.lim
ActType(m) == IF m.bins # <<>> THEN "int32" ELSE "float32"

\* ------------------------------- specs ----------------------------------
\* kind of environment: "base" (multi-agent), "planning", or "dm" around one
\* of the two (squeezing scalar actions or not)
ObjDims(env, n) == IF env = "base" THEN <<n>> ELSE <<>>
Tile(v, env, n) == IF env = "base" THEN [i \in 1..(n * Len(v)) |-> v[((i - 1) % Len(v)) + 1]] ELSE v
ActionShape(env, n, m, squeeze) ==
  IF squeeze = 1 /\ env = "planning" /\ ActDim(m) = 1 THEN <<>> ELSE ObjDims(env, n) \o <<ActDim(m)>>
ValidShape(env, n) == ObjDims(env, n) \o <<1>>
RewardShape(env, n) == ObjDims(env, n)

\* --------------------------- configurations -----------------------------
RouteMetrics == {"sdc_wrongway", "sdc_progression", "sdc_off_route"}
BuiltIn == RouteMetrics \cup {"log_divergence", "overlap", "offroad", "kinematic_infeasibility"}
\* history windows longer than the warm-up cannot be filled (0: no observation)
EnvConfigOK(g) == g.obs <= g.init
\* route metrics need the ego paths
TopConfigOK(g) == g.paths = 1 \/ g.metrics \cap RouteMetrics = {}
PlanningOK(g) == g.class = "SDC" /\ g.actors = g.params
RewardOK(g) == g.metrics \subseteq BuiltIn
GridOK(g) == g.lo = g.hi /\ g.lo = g.bins
\* the ego environment factory controls the ego only
FactoryOK(g) == g.class = "SDC"
\* the ego paths have a configured size
PathsOK(g) == g.paths = 0 \/ (g.num = 1 /\ g.pts = 1)

Accepts(g) == CASE g.fam = "env" -> EnvConfigOK(g)
                [] g.fam = "top" -> TopConfigOK(g)
                [] g.fam = "planning" -> PlanningOK(g)
                [] g.fam = "reward" -> RewardOK(g)
                [] g.fam = "grid" -> GridOK(g)
                [] g.fam = "factory" -> FactoryOK(g)
                [] g.fam = "paths" -> PathsOK(g)
Classes == {"SDC", "VALID", "MODELED", "NON_SDC"}
MetricSets == {s \in SUBSET BuiltIn : Cardinality(s) <= 2} \cup {BuiltIn, RouteMetrics}
Configs ==
  {[fam |-> "env", init |-> i, obs |-> o] : i \in 1..4, o \in 0..5}
  \cup {[fam |-> "top", paths |-> p, metrics |-> s] : p \in 0..1, s \in MetricSets}
  \cup {[fam |-> "planning", class |-> k, actors |-> a, params |-> b] : k \in Classes, a \in 0..2, b \in 0..3}
  \cup {[fam |-> "reward", metrics |-> s \cup u] : s \in MetricSets, u \in {{}, {"overlaps"}, {"sdc_progress"}}}
  \cup {[fam |-> "grid", lo |-> a, hi |-> b, bins |-> d] : a \in 1..3, b \in 1..3, d \in 1..3}
  \cup {[fam |-> "factory", class |-> k] : k \in Classes \ {"SDC"}}
  \cup {[fam |-> "paths", paths |-> p, num |-> a, pts |-> b] : p \in 0..1, a \in 0..1, b \in 0..1}
=============================================================================
