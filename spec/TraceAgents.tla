------------------------------ MODULE TraceAgents ------------------------------
(***************************************************************************)
(* Judges recorded reference actors, one event per object (or per call).   *)
(***************************************************************************)
EXTENDS Agents, TLC, Json, IOUtils
R == INSTANCE DynRules
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}

\* per-object claims of one call
ClaimBad(e) == C("claim." \o e.actor, Len(e.got) = Len(e.obj) /\ \A i \in DOMAIN e.obj : (e.got[i] = 1) <=> Claims(e.rule, e.obj[i], e.t, i))

\* merged action of one call; entries are exact (bit patterns)
MergeBad(e) ==
     C("merge.disjoint_input", Disjoint(e.outs))
  \cup C("merge.owned", \A i \in DOMAIN e.got : Owners(e.outs, i) # {} => e.got[i] = MergedAct(e.outs, i))

\* expert: the action inferred from the simulated slot to the logged one
ExpertBad(e) == {"expert." \o b : b \in R!InvBad(e)}
\* replaying the expert's action reaches the log
ReachBad(e) == {"expert." \o b : b \in R!RoundBad(e)}

ConstBad(e) ==
  LET nx == ConstNext(e.cur, e.keep, e.sp, e.ctl)
      f == [cur |-> e.cur, nxt |-> nx, kind |-> e.kind, p |-> e.p, out |-> e.out, valid |-> e.valid, lo |-> e.lo, hi |-> e.hi]
  IN IF e.kind = "state"
     THEN C("const.valid", e.valid = nx.valid)
          \cup C("const.state", /\ Near(e.out[1], nx.x, 4) /\ Near(e.out[2], nx.y, 4) /\ Near(e.out[3], nx.yaw, 4)
                                /\ Near(e.out[4], nx.vx, 4) /\ Near(e.out[5], nx.vy, 4))
     ELSE {"const." \o b : b \in R!InvBad(f)}

FrozenBad(e) == C("frozen.pose", e.out = <<e.cur.x, e.cur.y, e.cur.yaw, e.cur.vx, e.cur.vy>>) \cup C("frozen.valid", e.valid = e.cur.valid)

FollowBad(e) ==
  LET W == Follow(e.cur, e.log, e.ns, e.nsv, e.inv)
      V == {w \in W : w.valid = e.valid}
      Ok(w, i, tol) == Near(e.out[i], w.out[i], tol)
  IN IF V = {} THEN {"follow.valid"}
     ELSE IF \E w \in V : Ok(w, 1, 15) /\ Ok(w, 2, 15) /\ R!AngDist(e.out[3], w.out[3]) <= 6 /\ Ok(w, 4, 12) /\ Ok(w, 5, 12) THEN {}
     ELSE IF \A w \in V : ~(Ok(w, 1, 15) /\ Ok(w, 2, 15)) THEN {"follow.position"}
     ELSE IF \A w \in V : R!AngDist(e.out[3], w.out[3]) > 6 THEN {"follow.heading"}
     ELSE {"follow.velocity"}

\* e.log[k] = <<x, y, len, wid, yaw, valid, z>>; e.boxes, e.speeds, e.z per object
Dist3(a, z, b) == Hypot(Hypot(a[1] - b[1], a[2] - b[2]), z - b[7])
IdmBad(e) ==
  LET i == e.i   p == e.p
      me == e.boxes[i]
      L == {k \in DOMAIN e.log : e.log[k][6] = 1}
      m == MinSet({Dist3(me, e.z, e.log[k]) : k \in L})
      starts == IF p.fromcur = 1 THEN {0} ELSE IF L = {} THEN {1} ELSE {k \in L : Dist3(me, e.z, e.log[k]) <= m + 12}
      Way(k) == IF k = 0 THEN <<me>> ELSE SubSeq(e.log, k, Min2(Len(e.log), k + p.look - 1))
      WayDist(k) == LET w == Way(k)  pts == Points(w, p) IN
                    [q \in DOMAIN pts |-> IF k = 0 THEN (IF q = 1 THEN 0 ELSE DivR((q - 1) * p.dist, p.n))
                                          ELSE Dist3(me, e.z, <<pts[q][1], pts[q][2], 0, 0, 0, 0, w[Min2(q, Len(w))][7]>>)]
      v == e.speeds[i]
      W == UNION {LET pts == Points(Way(k), p) IN Leads(pts, WayDist(k), e.boxes, e.speeds, i) : k \in starts}
      Ok(ld) == Near(e.out, NewSpeed(p, v, ld), 60 + Abs(IDMAccel(p, v, ld)) \div 4000)
  IN C("idm.nonnegative", e.out >= 0)
     \cup C("idm.law", \E ld \in W : Ok(ld))
     \cup C("idm.free_road", W = {NOLEAD} => Ok(NOLEAD))

Bad == LET e == Traces[tr].ev[l] IN
       CASE e.op = "claim" -> ClaimBad(e) [] e.op = "merge" -> MergeBad(e) [] e.op = "expert" -> ExpertBad(e)
         [] e.op = "reach" -> ReachBad(e) [] e.op = "const" -> ConstBad(e) [] e.op = "frozen" -> FrozenBad(e)
         [] e.op = "follow" -> FollowBad(e) [] e.op = "idm" -> IdmBad(e)
Report == l = 0 \/ LET b == Bad IN (b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b])))
=============================================================================
