------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Recorded examples and simulator states.  A record splits every line     *)
(* (one field of one object over time) into past, current and future       *)
(* samples; decoding joins them, averages the sizes over the valid samples *)
(* and starts a simulation whose only filled slot is the first.  Exporting *)
(* is the inverse view of the last h + 1 simulated slots.                  *)
(***************************************************************************)
EXTENDS FixedPoint

Cat(p, c, f) == p \o c \o f
\* validity line of 0/1
RECURSIVE NumOn(_, _)
NumOn(v, i) == IF i = 0 THEN 0 ELSE v[i] + NumOn(v, i - 1)
Count(v) == NumOn(v, Len(v))
RECURSIVE SumOn(_, _, _)
SumOn(x, v, i) == IF i = 0 THEN 0 ELSE v[i] * x[i] + SumOn(x, v, i - 1)
\* mean over the valid samples, -unit when there is none
MeanIs(m, x, v, unit, tol) ==
  LET n == Count(v) IN
  IF n = 0 THEN Near(m, -unit, tol)
  ELSE Abs(m * n - SumOn(x, v, Len(v))) <= tol * n
\* exact mean, as <<sum, count>>
Mean(x, v) == <<SumOn(x, v, Len(v)), Count(v)>>
Flags(track, sdc, ooi) ==
  [valid |-> IF track # -1 THEN 1 ELSE 0, modeled |-> IF track = 1 THEN 1 ELSE 0,
   sdc |-> IF sdc = 1 THEN 1 ELSE 0, ooi |-> IF ooi = 1 THEN 1 ELSE 0, controlled |-> 0]
Split(line, c, h) == [past |-> SubSeq(line, c - h, c - 1), current |-> <<line[c]>>]
Zeros(n) == [i \in 1..n |-> 0]
FirstOnly(line) == [i \in 1..Len(line) |-> IF i = 1 THEN line[1] ELSE 0]

\* ------------------- the format of a record (public dataset) -------------------
\* feature name -> [shape, type], "f" float32, "i" int64; a: [n objects, p map
\* points, l lights, paths (0/1), m paths, q points per path].  The dataset
\* holds 10 past samples, the current one and 80 future ones.
Window == [past |-> 10, current |-> 1, future |-> 80]
Feat(sh, ty) == [shape |-> sh, type |-> ty]
Join(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]
MapFeatures(a) ==
  [k \in {"roadgraph_samples/" \o x : x \in {"dir", "xyz"}} |-> Feat(<<a.p, 3>>, "f")]
MapInts(a) == [k \in {"roadgraph_samples/" \o x : x \in {"id", "type", "valid"}} |-> Feat(<<a.p, 1>>, "i")]
ObjFloats(a) == [k \in {"state/id", "state/type"} |-> Feat(<<a.n>>, "f")]
ObjInts(a) == [k \in {"state/is_sdc", "state/tracks_to_predict", "state/objects_of_interest"} |-> Feat(<<a.n>>, "i")]
TrackFloats(a, w) == [k \in {"state/" \o w \o "/" \o x : x \in {"bbox_yaw", "height", "length", "vel_yaw", "speed", "velocity_x", "velocity_y", "width", "x", "y", "z"}}
                       |-> Feat(<<a.n, Window[w]>>, "f")]
TrackInts(a, w) == [k \in {"state/" \o w \o "/" \o x : x \in {"timestamp_micros", "valid"}} |-> Feat(<<a.n, Window[w]>>, "i")]
LightFloats(a, w) == [k \in {"traffic_light_state/" \o w \o "/" \o x : x \in {"x", "y", "z"}} |-> Feat(<<Window[w], a.l>>, "f")]
LightInts(a, w) == [k \in {"traffic_light_state/" \o w \o "/" \o x : x \in {"state", "valid", "id"}} |-> Feat(<<Window[w], a.l>>, "i")]
LightTimes(w) == [k \in {"traffic_light_state/" \o w \o "/timestamp_micros"} |-> Feat(<<Window[w]>>, "i")]
PathFeatures(a) == IF a.paths = 0 THEN <<>>
  ELSE Join([k \in {"path_samples/xyz"} |-> Feat(<<a.m, a.q, 3>>, "f")],
       Join([k \in {"path_samples/valid", "path_samples/id"} |-> Feat(<<a.m, a.q>>, "i")],
       Join([k \in {"path_samples/arc_length"} |-> Feat(<<a.m, a.q>>, "f")],
            [k \in {"path_samples/on_route"} |-> Feat(<<a.m, 1>>, "i")])))
Timed(a, w) == Join(TrackFloats(a, w), Join(TrackInts(a, w), Join(LightFloats(a, w), Join(LightInts(a, w), LightTimes(w)))))
Features(a) == Join(MapFeatures(a), Join(MapInts(a), Join(ObjFloats(a), Join(ObjInts(a),
               Join(Timed(a, "past"), Join(Timed(a, "current"), Join(Timed(a, "future"), PathFeatures(a))))))))
\* sizes used when the caller names none
DefaultSizes == [n |-> 128, p |-> 30000, l |-> 16, paths |-> 0, m |-> 45, q |-> 800]
=============================================================================
