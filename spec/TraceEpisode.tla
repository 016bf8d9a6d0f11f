----------------------------- MODULE TraceEpisode -----------------------------
(***************************************************************************)
(* Judges recorded call histories of the stateful episode interface.       *)
(* x: [w, lens, logx (ego x at the end of warm-up, per scenario), weight,  *)
(*     bar (terminated when the ego's x exceeds it), batch]                *)
(* Per batch element the ego's x after a step is the x of the action, and  *)
(* the reward is weight times the ego's x in the state scored.             *)
(***************************************************************************)
EXTENDS Episode, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
F == 64

Terms(x, e) == \A b \in DOMAIN e.ax : e.ax[b] > x.bar
Apply(x, s, e) ==
  LET hz(n) == x.lens[n] IN
  CASE e.op = "reset" -> DoReset(s, x.w, hz)
    [] e.op = "step" -> DoStep(s, s.phase = "running" /\ Terms(x, e))
    [] e.op = "read" -> DoRead(s)
RECURSIVE After(_, _)
After(x, k) == IF k = 0 THEN Fresh ELSE Apply(x, After(x, k - 1), x.ev[k])[1]
\* ego x in the state the k-th call leaves behind
RECURSIVE EgoX(_, _)
EgoX(x, k) ==
  LET s == After(x, k)  e == x.ev[k] IN
  IF e.op = "reset" /\ s.phase = "running" THEN x.logx[s.n]
  ELSE IF e.op = "step" /\ Apply(x, After(x, k - 1), e)[2] \in {"MID", "LAST"} THEN e.ax
  ELSE IF k = 1 THEN <<>> ELSE EgoX(x, k - 1)

Bad ==
  LET x == Traces[tr]  e == x.ev[l]
      s0 == After(x, l - 1)  res == Apply(x, s0, e)  s == res[1]  out == res[2]
  IN C("episode.outcome", e.out = out)
     \cup (IF e.out # out \/ out \in {NotInit, Finished} THEN {}
           ELSE C("episode.scenario", e.scen = s.n)
                \cup C("episode.clock", e.t = s.t)
                \cup C("episode.observation", e.ox = EgoX(x, l))
                \cup C("episode.obs_is_state", e.same = 1)
                \* composed by the factory = composed by hand; without other
                \* actors the other objects replay the log
                \cup C("episode.factory", "twin" \in DOMAIN e => e.twin = 1)
                \cup C("episode.others", "logged" \in DOMAIN e => e.logged = 1)
                \cup (IF out = "FIRST" THEN C("episode.first", e.rew = "none" /\ e.disc = "none")
                      ELSE IF out \in {"MID", "LAST"} THEN
                        C("episode.reward", e.rew = [b \in DOMAIN e.ax |-> x.weight * EgoX(x, l - 1)[b]])
                        \cup C("episode.discount", \A b \in DOMAIN e.disc : e.disc[b] = IF out = "LAST" /\ Terms(x, e) THEN 0 ELSE F)
                      ELSE {}))
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
