------------------------------ MODULE TraceGrid ------------------------------
(* Judges recorded discretiser and discretised-dynamics calls.               *)
EXTENDS Grid, DynRules, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
G == Traces[tr].g
P == Traces[tr].p
Kind == Traces[tr].kind

\* a cell: decoded action, and what it encodes back to
CellBad(e) ==
     C("grid.decode", Len(e.a) = Dims(G) /\ \A i \in 1..Dims(G) : Near(e.a[i], Action(G, e.k)[i], Slack(G, i)))
  \cup C("grid.bounds", \A i \in 1..Len(e.a) : e.a[i] >= G.lo[i] - 2 /\ e.a[i] <= G.hi[i] + 2)
  \cup C("grid.roundtrip", e.back = e.k)
\* the cells of one grid are all there and all different
AllBad(e) == C("grid.distinct", e.n = NCells(G) /\ e.distinct = NCells(G))
\* a continuous action
EncodeBad(e) ==
  IF e.k \notin 0..(NCells(G) - 1) THEN {"grid.range"}
  ELSE C("grid.nearest", \A i \in 1..Dims(G) : IsNearest(G, i, Coord(G, e.k)[i], e.v[i]))

\* stepping with an index: the wrapped model on the grid action
ActBad(e) ==
  LET w == Fwd(Kind, e.cur, Action(G, e.k), P)
      tol == IF Kind = "bike" THEN 20 ELSE 12
  IN C("act.x", Near(e.out[1], w[1], tol + FarTol(w[1]))) \cup C("act.y", Near(e.out[2], w[2], tol + FarTol(w[2])))
     \cup C("act.yaw", AngDist(e.out[3], w[3]) <= 40 + TolYaw(Kind, P))
     \cup C("act.vx", Near(e.out[4], w[4], 20 + TolVel(Kind, P, w))) \cup C("act.vy", Near(e.out[5], w[5], 20 + TolVel(Kind, P, w)))
     \cup C("act.valid", e.via = "forward" \/ e.valid = UpdValid(Kind, e.cur.valid, e.av))

\* inferring an index, rounding mode: nearest to the wrapped model's inference
BinBad(e) ==
  IF e.k \notin 0..(NCells(G) - 1) THEN {"bin.range"}
  ELSE C("bin.valid", e.valid = e.cvalid)
       \cup C("bin.nearest", \A i \in 1..Dims(G) : IsNearest(G, i, Coord(G, e.k)[i], e.v[i]))

\* inferring an index, search mode: best forward result among all cells
SearchBad(e) ==
  IF e.k \notin 0..(NCells(G) - 1) THEN {"search.range"}
  ELSE C("search.valid", e.valid = e.cur.valid * e.nxt.valid)
       \cup (IF e.cur.valid * e.nxt.valid = 0
             THEN C("search.default", \A i \in 1..Dims(G) : IsNearest(G, i, Coord(G, e.k)[i], 0))
             ELSE LET q == <<e.nxt.x, e.nxt.y, e.nxt.yaw>>
                      fit == [k \in 0..(NCells(G) - 1) |-> Fit(Fwd(Kind, e.cur, Action(G, k), P), q, e.len, e.wid)]
                      best == CHOOSE k \in DOMAIN fit : \A j \in DOMAIN fit : fit[k] <= fit[j]
                  IN C("search.best", ISqrt(Max2(0, fit[e.k])) <= ISqrt(Max2(0, fit[best])) + 10))

Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "cell" -> CellBad(e) [] e.op = "all" -> AllBad(e) [] e.op = "encode" -> EncodeBad(e)
    [] e.op = "act" -> ActBad(e) [] e.op = "bin" -> BinBad(e) [] e.op = "search" -> SearchBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
