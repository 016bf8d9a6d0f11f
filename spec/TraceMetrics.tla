----------------------------- MODULE TraceMetrics -----------------------------
(* Judges recorded metric evaluations and rewards. *)
EXTENDS Metrics, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
One == 10000      \* metric values 0/1 are recorded in 1/10000
Bit(v) == IF v = One THEN 1 ELSE IF v = 0 THEN 0 ELSE 9
FitsV(v, out) == (out = 0 \/ out = One) /\ Fits(v, Bit(out))

OverlapBad(e) ==
     C("overlap.value", \A i \in DOMAIN e.boxes : BV(e.boxes[i]) = 0 \/ FitsV(Overlap(e.boxes, i), e.out[i]))
  \cup C("overlap.valid", \A i \in DOMAIN e.boxes : e.valid[i] = BV(e.boxes[i]))

\* objects invalid now have no box to judge
OffroadBad(e) ==
     C("offroad.value", \A i \in DOMAIN e.boxes : BV(e.boxes[i]) = 0 \/ FitsV(Offroad(e.boxes[i], e.z[i], e.rg), e.out[i]))
  \cup C("offroad.valid", \A i \in DOMAIN e.boxes : BV(e.boxes[i]) = 0 \/ e.valid[i] = 1)

\* thresholded distance
ThresFits(out, d, v) ==
  \/ v \in {"yes", "either"} /\ Near(out, d, TOLD)
  \/ v \in {"no", "either"} /\ out = 0
WrongWayBad(e) ==
  LET d == MinSet({PathDist(e.ego, e.paths[i]) : i \in DOMAIN e.paths}) IN
  IF d = INF THEN C("wrongway.valid", e.valid = 0) \cup C("wrongway.invalid_zero", e.out = 0)
  ELSE IF e.egovalid = 0 THEN {}
  ELSE C("wrongway.valid", e.valid = 1)
       \cup C("wrongway.value", ThresFits(e.out, d, Set3(d > WRONGWAY + TOLD, d < WRONGWAY - TOLD)))

IsOn(p) == p.on = 1
IsOff(p) == p.on = 0
OffRouteBad(e) ==
  LET on == ClosestOf(e.ego, e.paths, IsOn)
      off == ClosestOf(e.ego, e.paths, IsOff)
  IN IF e.egovalid = 0 \/ on = INF THEN C("offroute.valid", e.valid = 0) \cup C("offroute.invalid_zero", e.out = 0)
     ELSE C("offroute.valid", e.valid = 1) \cup C("offroute.value", ThresFits(e.out, on, OffRoute(on, off)))

ProgressBad(e) ==
  IF e.egovalid = 0 \/ ClosestOf(e.ego, e.paths, IsOn) = INF
  THEN C("progress.valid", e.valid = 0) \cup C("progress.invalid_zero", e.out = 0)
  ELSE C("progress.valid", e.valid = 1) \cup C("progress.value", ProgressFits(e.out, e.ego, e.start, e.end, e.paths))

\* distances of any size, to a relative resolution of about 10^-6
AnyDist(a, b) == IF Max2(Abs(a), Abs(b)) <= 3000000 THEN Hypot(a, b) ELSE 100 * Hypot(DivR(a, 100), DivR(b, 100))
TolAnyDist(a, b) == IF Max2(Abs(a), Abs(b)) <= 3000000 THEN TOLD ELSE 300
LogDivBad(e) ==
     C("logdiv.valid", \A i \in DOMAIN e.sim : e.valid[i] = e.sim[i][3] * e.log[i][3])
  \cup C("logdiv.value", \A i \in DOMAIN e.sim : e.sim[i][3] * e.log[i][3] = 0
        \/ LET dx == e.sim[i][1] - e.log[i][1]  dy == e.sim[i][2] - e.log[i][2]
           IN Near(e.out[i], AnyDist(dx, dy), TolAnyDist(dx, dy)))
  \cup C("logdiv.replay_zero", \A i \in DOMAIN e.sim : ((e.sim[i][3] * e.log[i][3] = 1) /\ e.sim[i] = e.log[i]) => e.out[i] = 0)

KinBad(e) ==
  LET v == e.cur.valid * e.nxt.valid IN
     C("kin.valid", e.valid = v)
  \cup C("kin.value", IF v = 0 THEN e.out = 0 ELSE FitsV(KinFlag(e.cur, e.nxt, e.p), e.out))
  \cup C("kin.bicycle_never_flagged", e.frombike = 1 => e.out = 0)

\* reward: metric values on a 1/64 lattice, weights integers
RECURSIVE SumR(_, _, _)
SumR(ms, i, o) == IF i > Len(ms) THEN 0 ELSE (IF ms[i].valid[o] = 1 THEN ms[i].w * ms[i].value[o] ELSE 0) + SumR(ms, i + 1, o)
RewardBad(e) ==
     C("reward.shape", Len(e.out) = Len(e.ctl) /\ e.dtype = "float32")
  \cup C("reward.value", Len(e.out) = Len(e.ctl) =>
        \A o \in DOMAIN e.ctl : e.out[o] = IF e.enabled = 1 /\ e.ctl[o] = 1 THEN SumR(e.ms, 1, o) ELSE 0)

Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "overlap" -> OverlapBad(e) [] e.op = "offroad" -> OffroadBad(e)
    [] e.op = "wrongway" -> WrongWayBad(e) [] e.op = "offroute" -> OffRouteBad(e)
    [] e.op = "progress" -> ProgressBad(e) [] e.op = "logdiv" -> LogDivBad(e)
    [] e.op = "kin" -> KinBad(e) [] e.op = "reward" -> RewardBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
