----------------------------- MODULE TraceDecode -----------------------------
(* Judges decoded recordings (C35) and exported simulator states (C39).     *)
(* Positions and velocities: lattice 1/8; angles 1/10^6; sizes and arc      *)
(* lengths 1/10^4; everything else plain integers.                          *)
EXTENDS Decode, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
U == 10000
\* --- decoding ---
LineBad(e) == C("decode." \o e.f, e.got = Cat(e.past, e.current, e.future))
YawBad(e) == LET w == Cat(e.past, e.current, e.future) IN
  C("decode.yaw", Len(e.got) = Len(w) /\ \A i \in 1..Len(w) : AngDist(e.got[i], w[i]) <= 20)
  \cup C("decode.yaw_range", e.wrapped = 0 \/ \A i \in 1..Len(e.got) : e.got[i] >= -PI - 1 /\ e.got[i] <= PI + 1)
SizeBad(e) == LET v == Cat(e.vp, e.vc, e.vf)  x == Cat(e.past, e.current, e.future) IN
  C("decode." \o e.f, Len(e.got) = Len(x) /\ \A i \in 1..Len(x) : MeanIs(e.got[i], x, v, U, 3))
\* lights: rows are times in the record, columns after decoding
LightBad(e) == LET rows == Cat(e.past, e.current, e.future) IN
  C("decode.light_" \o e.f, \A k \in 1..Len(e.got) : e.got[k] = [t \in 1..Len(rows) |-> rows[t][k]])
PlainBad(e) == C("decode." \o e.f, e.got = e.want)
MetaBad(e) == C("decode.meta", Len(e.valid) <= Len(e.track) /\ \A i \in 1..Len(e.valid) :
     LET w == Flags(e.track[i], e.sdc[i], e.ooi[i]) IN
     /\ e.valid[i] = w.valid /\ e.modeled[i] = w.modeled /\ e.is_sdc[i] = w.sdc
     /\ e.got_ooi[i] = w.ooi /\ e.controlled[i] = 0)
  \cup C("decode.ids", e.ids = SubSeq(e.raw_ids, 1, Len(e.ids)) /\ e.types = SubSeq(e.raw_types, 1, Len(e.types)))
StartBad(e) == C("start." \o e.f, e.sim = FirstOnly(e.log))
ClockBad(e) == C("start.clock", \A i \in 1..Len(e.t) : e.t[i] = 0)
ShapeBad(e) == C("decode.shape", e.got = e.want)
WhichBad(e) == C("decode.which_time", e.got = [i \in 1..e.np |-> -1] \o <<0>> \o [i \in 1..e.nf |-> 1])
KeysBad(e) == C("decode.keys", e.got = e.want)
\* the record format a caller asks for (unnamed sizes take their defaults)
FormatBad(e) == LET a == [k \in DOMAIN DefaultSizes |-> IF k \in DOMAIN e.a THEN e.a[k] ELSE DefaultSizes[k]]  want == Features(a) IN
  C("format.names", {e.got[i].name : i \in DOMAIN e.got} = DOMAIN want)
  \cup C("format.feature", \A i \in DOMAIN e.got : LET g == e.got[i] IN g.name \in DOMAIN want => g.shape = want[g.name].shape /\ g.type = want[g.name].type /\ g.required = 1)
RejBad(e) == C("reject." \o e.what, e.rejected = e.want)
\* --- exporting: line is the whole simulated line, t its 1-based current slot, h the history ---
ExpBad(e) == LET w == Split(e.line, e.t, e.h) IN
  C("export." \o e.f, e.past = w.past /\ e.current = w.current)
SpeedBad(e) == LET n == Len(e.vx) IN
  C("export.speed", \A i \in 1..n : IF e.v[i] = 0 THEN e.speed[i] = -U ELSE Near(e.speed[i], Hypot(e.vx[i], e.vy[i]), 8))
  \cup C("export.vel_yaw", \A i \in 1..n : IF e.v[i] = 0 THEN e.dir[i] = -U
            ELSE (e.vx[i] = 0 /\ e.vy[i] = 0) \/ AngDist(e.dir[i] * 100, Atan2(e.vy[i], e.vx[i])) <= 300)
FutureBad(e) == C("export.future_" \o e.f, e.min = -1 /\ e.max = -1)
ExpLightBad(e) == LET w == Split(e.line, e.t, e.h) IN C("export.light_" \o e.f, e.past = w.past /\ e.current = w.current)
ExpMetaBad(e) == C("export.meta", \A i \in 1..Len(e.valid) :
     IF e.valid[i] = 0 THEN e.id[i] = -1 /\ e.type[i] = -1 /\ e.sdc[i] = -1 /\ e.ooi[i] = -1 /\ e.track[i] = -1
     ELSE /\ e.id[i] = e.ids[i] /\ e.type[i] = e.types[i] /\ e.sdc[i] = e.is_sdc[i] /\ e.ooi[i] = e.is_ooi[i] /\ e.track[i] = e.modeled[i])
AgainBad(e) == C("again." \o e.f, e.got = e.want)
Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "line" -> LineBad(e) [] e.op = "yaw" -> YawBad(e) [] e.op = "size" -> SizeBad(e) [] e.op = "light" -> LightBad(e)
    [] e.op = "plain" -> PlainBad(e) [] e.op = "meta" -> MetaBad(e) [] e.op = "start" -> StartBad(e) [] e.op = "clock" -> ClockBad(e)
    [] e.op = "shape" -> ShapeBad(e) [] e.op = "which" -> WhichBad(e) [] e.op = "keys" -> KeysBad(e) [] e.op = "rej" -> RejBad(e)
    [] e.op = "exp" -> ExpBad(e) [] e.op = "speed" -> SpeedBad(e) [] e.op = "future" -> FutureBad(e) [] e.op = "explight" -> ExpLightBad(e)
    [] e.op = "expmeta" -> ExpMetaBad(e) [] e.op = "again" -> AgainBad(e) [] e.op = "format" -> FormatBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
