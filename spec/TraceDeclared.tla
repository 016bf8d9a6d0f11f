---------------------------- MODULE TraceDeclared ----------------------------
(* Judges recorded specs, and what environments accept and produce.          *)
EXTENDS Declared, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
M == Traces[tr].model
N == Traces[tr].n
Env == Traces[tr].env

\* a recorded array spec: [shape, dtype]; bounded: plus lo, hi (flattened)
SpecBad(e) ==
     C("spec.action.shape", e.act.shape = ActionShape(Env, N, M, e.squeeze))
  \cup C("spec.action.dtype", e.act.dtype = ActType(M))
  \cup C("spec.action.min", Len(e.act.lo) = Len(Tile(ActLo(M), Env, N)) /\ e.act.lo = Tile(ActLo(M), Env, N))
  \cup C("spec.action.max", Len(e.act.hi) = Len(Tile(ActHi(M), Env, N)) /\ e.act.hi = Tile(ActHi(M), Env, N))
  \cup (IF e.valid = <<>> THEN {} ELSE C("spec.valid", e.valid[1].shape = ValidShape(Env, N) /\ e.valid[1].dtype = "bool"))
  \cup C("spec.reward", e.rew.shape = RewardShape(Env, N) /\ e.rew.dtype = "float32")
  \cup C("spec.discount", e.disc.shape = <<>> /\ e.disc.dtype = "float32" /\ e.disc.lo = <<0>> /\ e.disc.hi = <<1000>>)

\* an action inside the declared spec, on a state with batch dimensions batch
AcceptBad(e) ==
  IF e.out # "ok" THEN {"accept.raised"} ELSE
     C("accept.state_shape", e.state = e.batch)
  \cup C("accept.finite", e.finite = 1)
  \cup (IF e.rew = <<>> THEN {} ELSE
        C("produce.reward", e.rew[1].shape = e.batch \o RewardShape(Env, N) /\ e.rew[1].dtype = "float32"))
  \cup (IF e.disc = <<>> THEN {} ELSE
        C("produce.discount", e.disc[1].shape = e.batch /\ e.disc[1].dtype = "float32" /\ \A i \in 1..Len(e.dv) : e.dv[i] \in 0..1000))
  \cup C("produce.static", e.treedef = 1)

\* an action the model infers itself lies inside the declared space
InferBad(e) ==
     C("infer.shape", e.shape = e.batch \o <<N, ActDim(M)>> /\ e.dtype = ActType(M))
  \cup C("infer.bounds", \A i \in 1..Len(e.min) : /\ e.min[i] >= ActLo(M)[i] - 1
                                                   /\ e.max[i] <= ActHi(M)[i] + 1)

\* observation: one declared leaf per produced leaf, batch dimensions stripped
ObsBad(e) ==
     C("obs.leaves", Len(e.spec) = Len(e.made) /\ e.same = 1)
  \cup (IF Len(e.spec) # Len(e.made) THEN {} ELSE
        \* (a scalar leaf -- the clock -- may be shared by the whole batch)
        C("obs.shape", \A i \in 1..Len(e.spec) : \/ e.made[i].shape = e.batch \o e.spec[i].shape
                                                 \/ e.made[i].shape = <<>> /\ e.spec[i].shape = <<>>)
        \cup C("obs.dtype", \A i \in 1..Len(e.spec) : e.made[i].dtype = e.spec[i].dtype))

\* an environment without an observation spec says so
NoObsBad(e) == C("obs.undeclared", e.out = "NotImplementedError")

\* the wrapper hands out its environment and that one's configuration, if any
ConfigBad(e) == C("wrapper.config", e.given = "1" /\ e.missing = "ValueError") \cup C("wrapper.inner", e.inner = 1)

Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "spec" -> SpecBad(e) [] e.op = "accept" -> AcceptBad(e) [] e.op = "infer" -> InferBad(e)
    [] e.op = "obs" -> ObsBad(e) [] e.op = "noobs" -> NoObsBad(e) [] e.op = "config" -> ConfigBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
