--------------------------- MODULE TraceContainers ---------------------------
(* Judges recorded uses of the structured data containers.                   *)
EXTENDS Containers, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}

ViewBad(e) == C("view." \o e.name, e.shape = 1 /\ e.out = Stacked(ViewOf[e.name], e.fields))
StackBad(e) == C("view.stack_fields", e.shape = 1 /\ e.out = Stacked(e.names, e.fields))
MotionBad(e) ==
     C("view.speed", \A i \in DOMAIN e.vx : SpeedOk(e.vx[i], e.vy[i], e.ok[i], e.speed[i]))
  \cup C("view.vel_yaw", \A i \in DOMAIN e.vx : TravelOk(e.vx[i], e.vy[i], e.ok[i], e.yaw[i]))
SizeBad(e) == C("view.sizes", e.out = e.want)
\* rotation and translation parts of homogeneous 3x3 matrices (row-major)
PoseBad(e) == C("view.matrix", e.shape = 1 /\ \A i \in DOMAIN e.matrix : LET m == e.matrix[i] IN
                 e.rot[i] = <<m[1], m[2], m[4], m[5]>> /\ e.tra[i] = <<m[3], m[6]>>)
EqualBad(e) == C("equal." \o e.change, (e.out = "True") = Same(e) /\ e.out \in {"True", "False"} /\ e.back = e.out)
MaskBad(e) == C("masked.value", e.shape = 1 /\ e.out = Masked(e.value, e.valid, e.fill, e.k))
ZeroBad(e) == C("zeros", e.out = [i \in DOMAIN e.out |-> 0] /\ e.dtypes = 1 /\ e.accepted = 1 /\ e.shape = 1)
\* the invalid trajectory: -1 for numbers, 0 for flags, nothing else changed
FillBad(e) == C("fill_invalid", e.shape = 1 /\ \A f \in DOMAIN e.out : \A i \in DOMAIN e.out[f] : e.out[f][i] = IF f = "valid" THEN 0 ELSE -1)
EdgeBad(e) == C("is_road_edge", \A i \in DOMAIN e.types : (e.out[i] = 1) = RoadEdge(e.types[i]))
EnumBad(e) == LET want == CASE e.name = "map" -> MapTypes [] e.name = "light" -> LightStates [] e.name = "object" -> ObjectTypes IN
  C("vocabulary." \o e.name, \A n \in DOMAIN want : n \in DOMAIN e.out /\ e.out[n] = want[n])
StateBad(e) == C("validate.state", (e.out = "ok") = (e.defect = "none"))

Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "view" -> ViewBad(e) [] e.op = "stack" -> StackBad(e) [] e.op = "motion" -> MotionBad(e) [] e.op = "size" -> SizeBad(e) [] e.op = "pose" -> PoseBad(e)
    [] e.op = "equal" -> EqualBad(e) [] e.op = "masked" -> MaskBad(e) [] e.op = "zeros" -> ZeroBad(e)
    [] e.op = "fill" -> FillBad(e) [] e.op = "edge" -> EdgeBad(e) [] e.op = "enum" -> EnumBad(e) [] e.op = "state" -> StateBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
