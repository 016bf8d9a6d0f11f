----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The structured data everything else is expressed in: which fields each  *)
(* container has, of which type and shape, when it is well formed, what    *)
(* its derived views are and when two of them are equal.                   *)
(***************************************************************************)
EXTENDS FixedPoint, FiniteSets, TLC

\* field <<name, kind, tail>>: a container has one shape; a field of tail
\* "same" has it, "one" has it with the last axis 1, "any" has it as prefix
F(n) == <<n, "f32", "same">>
I(n) == <<n, "i32", "same">>
B(n) == <<n, "bool", "same">>
Fields == [
  ObjectMetadata |-> {I("ids"), I("object_types"), B("is_sdc"), B("is_modeled"), B("is_valid"), B("objects_of_interest"), B("is_controlled")},
  Trajectory |-> {F("x"), F("y"), F("z"), F("vel_x"), F("vel_y"), F("yaw"), B("valid"), I("timestamp_micros"), F("length"), F("width"), F("height")},
  RoadgraphPoints |-> {F("x"), F("y"), F("z"), F("dir_x"), F("dir_y"), F("dir_z"), I("types"), I("ids"), B("valid")},
  Paths |-> {F("x"), F("y"), F("z"), I("ids"), B("valid"), F("arc_length"), <<"on_route", "bool", "one">>},
  TrafficLights |-> {F("x"), F("y"), F("z"), I("state"), I("lane_ids"), B("valid")},
  TrajectoryUpdate |-> {F("x"), F("y"), F("yaw"), F("vel_x"), F("vel_y"), B("valid")},
  MetricResult |-> {F("value"), B("valid")},
  MaskedArray |-> {<<"value", "any", "any">>, B("valid")},
  Action |-> {<<"data", "any", "free">>, <<"valid", "bool", "one">>},
  ObjectPose2D |-> {<<"original_xy", "f32", "any">>, F("original_yaw"), <<"matrix", "f32", "any">>, F("delta_yaw"), B("valid")}]
Classes == DOMAIN Fields
Kinds == {"f32", "i32", "bool"}

\* ---- one field made inconsistent: its type, or its shape ----
\* "longer": the first axis of the container's shape differs; "deeper": one
\* more trailing axis; "wide": the last axis 2 instead of 1
Defects(c, f) ==
  {"longer"} \cup {"type." \o k : k \in (IF f[2] = "any" THEN {} ELSE Kinds \ {f[2]})}
  \cup (IF f[3] = "same" /\ c # "ObjectPose2D" THEN {"deeper"} ELSE IF f[3] = "one" THEN {"wide"} ELSE {})
Accepts(d) == d = "none"

\* two containers are equal exactly when they are of one class, have the same
\* parts and every part has the same shape and the same values
Same(e) == e.change = "none"

\* ------------------------------- views ---------------------------------
\* stacked views: component j of element i
Stacked(names, fields) == LET m == Len(names) IN
  [k \in 1..(m * Len(fields[names[1]])) |-> fields[names[((k - 1) % m) + 1]][((k - 1) \div m) + 1]]
ViewOf == [xy |-> <<"x", "y">>, xyz |-> <<"x", "y", "z">>, vel_xy |-> <<"vel_x", "vel_y">>,
           dir_xy |-> <<"dir_x", "dir_y">>, dir_xyz |-> <<"dir_x", "dir_y", "dir_z">>,
           as_action |-> <<"x", "y", "yaw", "vel_x", "vel_y">>]
\* speed and direction of travel (1/10000 and 1/S), -1 where invalid
SpeedOk(vx, vy, ok, out) == IF ok = 0 THEN out = -10000 ELSE Near(out, Hypot(vx, vy), 20 + Abs(out) \div 20000)
TravelOk(vx, vy, ok, out) == IF ok = 0 THEN out = -S
                             ELSE (vx = 0 /\ vy = 0) \/ AngDist(out, Atan2(vy, vx)) <= 60 + S \div Max2(1, Max2(Abs(vx), Abs(vy)))
\* masked value: element i of n, each with k components
Masked(value, valid, fill, k) == [j \in DOMAIN value |-> IF valid[((j - 1) \div k) + 1] = 1 THEN value[j] ELSE fill]

\* -------------------------- record vocabularies -------------------------
MapTypes == [LANE_UNDEFINED |-> 0, LANE_FREEWAY |-> 1, LANE_SURFACE_STREET |-> 2, LANE_BIKE_LANE |-> 3, ROAD_LINE_UNKNOWN |-> 5,
  ROAD_LINE_BROKEN_SINGLE_WHITE |-> 6, ROAD_LINE_SOLID_SINGLE_WHITE |-> 7, ROAD_LINE_SOLID_DOUBLE_WHITE |-> 8,
  ROAD_LINE_BROKEN_SINGLE_YELLOW |-> 9, ROAD_LINE_BROKEN_DOUBLE_YELLOW |-> 10, ROAD_LINE_SOLID_SINGLE_YELLOW |-> 11,
  ROAD_LINE_SOLID_DOUBLE_YELLOW |-> 12, ROAD_LINE_PASSING_DOUBLE_YELLOW |-> 13, ROAD_EDGE_UNKNOWN |-> 14, ROAD_EDGE_BOUNDARY |-> 15,
  ROAD_EDGE_MEDIAN |-> 16, STOP_SIGN |-> 17, CROSSWALK |-> 18, SPEED_BUMP |-> 19, UNKNOWN |-> -1]
LightStates == [UNKNOWN |-> 0, ARROW_STOP |-> 1, ARROW_CAUTION |-> 2, ARROW_GO |-> 3, STOP |-> 4, CAUTION |-> 5, GO |-> 6, FLASHING_STOP |-> 7, FLASHING_CAUTION |-> 8]
ObjectTypes == [UNSET |-> 0, VEHICLE |-> 1, PEDESTRIAN |-> 2, CYCLIST |-> 3] @@ ("OTHER" :> 4)
RoadEdge(ty) == ty \in {MapTypes.ROAD_EDGE_BOUNDARY, MapTypes.ROAD_EDGE_MEDIAN}
=============================================================================
