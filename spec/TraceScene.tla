------------------------------ MODULE TraceScene ------------------------------
(* Judges recorded observations, map filters, array operations and geometry. *)
EXTENDS Scene, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}

\* ---------------------------------------------------------- observations
\* one observer's view.  traj[j][k] = <<x,y,vx,vy,yaw,valid>> plus rest (exact)
ViewBad(e) ==
  LET ref == RefOf(e.frame, e.cur, e.who, e.sdc)
      local == e.frame # "GLOBAL"
      TrajOk(g, o) == o[6] = 1 =>
          /\ NearP(<<o[1], o[2]>>, ToLocal(ref, <<g[1], g[2]>>), TOLP)
          /\ NearP(<<o[3], o[4]>>, DirLocal(ref, <<g[3], g[4]>>), TOLP)
          /\ NearYaw(o[5], YawLocal(ref, g[5]))
      GP(id) == {i \in DOMAIN e.gpts : e.gpts[i].id = id}
      PtOk(o) == o.valid = 1 => \E i \in GP(o.id) :
          LET g == e.gpts[i] IN
          /\ NearP(o.p, ToLocal(ref, g.p), TOLP) /\ NearP(o.d, DirLocal(ref, g.d), 60)
          /\ o.rest = g.rest /\ g.valid = 1
  IN  C("frame.shape", Len(e.otraj) = Len(e.gtraj) /\ \A j \in DOMAIN e.gtraj : Len(e.otraj[j]) = Len(e.gtraj[j]))
   \cup C("frame.trajectory", \A j \in DOMAIN e.gtraj : \A k \in DOMAIN e.gtraj[j] : TrajOk(e.gtraj[j][k], e.otraj[j][k]))
   \cup C("frame.valid", \A j \in DOMAIN e.gtraj : \A k \in DOMAIN e.gtraj[j] : e.otraj[j][k][6] = e.gtraj[j][k][6] * ref[4])
   \cup C("frame.untouched", \A j \in DOMAIN e.gtraj : \A k \in DOMAIN e.gtraj[j] : e.gtraj[j][k][7] = e.otraj[j][k][7])
   \cup C("frame.roadpoints", \A i \in DOMAIN e.opts : PtOk(e.opts[i]))
   \cup C("frame.roadpoints_valid", \A i \in DOMAIN e.opts : ref[4] = 0 => e.opts[i].valid = 0)
   \cup C("frame.lights", Len(e.olights) = Len(e.glights) /\ \A i \in DOMAIN e.glights :
          LET g == e.glights[i]  o == e.olights[i] IN
          /\ o.valid = g.valid * ref[4] /\ o.rest = g.rest
          /\ (o.valid = 1 => NearP(o.p, ToLocal(ref, g.p), TOLP)))
   \cup C("frame.pose", /\ e.pose.valid = ref[4]
          /\ (ref[4] = 1 => /\ NearP(e.pose.xy, <<ref[1], ref[2]>>, TOLP) /\ NearYaw(e.pose.yaw, ref[3]) /\ NearYaw(e.pose.delta, -ref[3])
                            /\ NearP(e.pose.rot1, <<Cos(ref[3]), Sin(ref[3])>>, 12) /\ NearP(e.pose.rot2, <<-Sin(ref[3]), Cos(ref[3])>>, 12)
                            /\ NearP(e.pose.trans, ToLocal(ref, <<0, 0>>), TOLP)))
   \cup C("frame.pose_maps_back", \A j \in DOMAIN e.otraj : LET h == Len(e.otraj[j])  o == e.otraj[j][h]  g == e.gtraj[j][h] IN
          o[6] = 1 => NearP(ToGlobal(<<e.pose.xy[1], e.pose.xy[2], e.pose.yaw>>, <<o[1], o[2]>>), <<g[1], g[2]>>, 2 * TOLP))
   \cup C("frame.global_exact", local \/ \A j \in DOMAIN e.gtraj : e.gexact[j] = e.oexact[j])

WindowBad(e) ==
     C("window.trajectory", \A j \in DOMAIN e.sim : e.otraj[j] = Window(e.sim[j], e.t, e.h))
  \cup C("window.lights", \A j \in DOMAIN e.tl : e.otl[j] = Window(e.tl[j], e.t, e.h))
  \cup C("window.ego", e.ego = [j \in DOMAIN e.sim |-> IF j = e.who THEN 1 ELSE 0])
  \cup C("window.metadata", e.ometa = e.meta)
  \cup C("window.route", e.route = 0 \/ e.oroute = e.groute)
PerturbBad(e) == C("window.outside_matters", e.before = e.after) \cup C("window.inside_ignored", e.inside # e.before)
ForObjBad(e) == C("window.for_obj", e.got = e.want)

\* ---------------------------------------------------------- nearest points
TopkBad(e) ==
  LET In(o) == {i \in DOMAIN e.pts : e.pts[i] = o}
      V == {k \in DOMAIN e.out : e.out[k].valid = 1}
      idx == UNION {In(e.out[k]) : k \in V}
  IN C("topk.size", Len(e.out) = e.k)
   \cup C("topk.intact", \A k \in V : Cardinality(In(e.out[k])) = 1)
   \cup C("topk.nearest", Cardinality(idx) = Cardinality(V) /\ IsNearest(e.ref, e.pts, e.k, idx))
   \cup C("topk.types", e.dtypes = e.indtypes)
RaisesBad(e) == C("topk.too_many_accepted", e.raised = 1)

\* ------------------------------------------------------------------ fibers
All(e, P(_)) == \A i \in DOMAIN e.f : P(e.f[i])
SliceBad(e) == C("slice.value", All(e, LAMBDA f : f.out = Slice(f.in, f.s, e.n))) \cup C("slice.shape", e.oshape = e.wshape) \cup C("slice.dtype", e.odt = e.idt)
UpdBad(e) == C("update.value", All(e, LAMBDA f : f.out = Overwrite(f.in, f.upd, f.s, f.us, e.n))) \cup C("update.shape", e.oshape = e.wshape) \cup C("update.dtype", e.odt = e.idt)
MaskBad(e) == C("mask.value", All(e, LAMBDA f : f.out = ByMask(f.in, f.upd, f.m))) \cup C("mask.shape", e.oshape = e.wshape) \cup C("mask.dtype", e.odt = e.idt)
PickBad(e) == C("onehot.value", All(e, LAMBDA f : f.out = f.in[f.s + 1])) \cup C("onehot.shape", e.oshape = e.wshape) \cup C("onehot.dtype", e.odt = e.idt)
MeanBad(e) == C("mean.value", All(e, LAMBDA f : LET n == CountOnes(f.m, 1) IN \A k \in DOMAIN f.in :
                 IF n = 0 THEN f.out[k] = e.inv ELSE Near(f.out[k] * n, 16 * SumWhere(f.in, f.m, 1), n + 1))) \cup C("mean.shape", e.oshape = e.wshape)
FillBad(e) == C("fill.value", All(e, LAMBDA f : f.out = [k \in DOMAIN f.in |-> IF e.idt = "bool" THEN 0 ELSE -1])) \cup C("fill.shape", e.oshape = e.wshape) \cup C("fill.dtype", e.odt = e.idt)
EqualBad(e) == C("equal.value", e.out = IF e.a = e.b THEN 1 ELSE 0)
ByLogBad(e) == C("bylog.clock", e.t1 = e.t0 + e.n) \cup C("bylog.value", All(e, LAMBDA f : f.out = Overwrite(f.in, f.upd, f.s, f.s, e.n)))
ClockedBad(e) == C("clocked.value", All(e, LAMBDA f : f.out = Slice(f.in, f.s, 1)))

\* ---------------------------------------------------------------- geometry
RotBad(e) == C("geom.rotation", \A i \in DOMAIN e.f : LET f == e.f[i] IN
     /\ NearP(<<f.m[1], f.m[2]>>, <<Cos(f.a), -Sin(f.a)>>, 6) /\ NearP(<<f.m[3], f.m[4]>>, <<Sin(f.a), Cos(f.a)>>, 6)
     /\ \A k \in DOMAIN f.pts : NearP(f.out[k], Rot(f.a, f.pts[k]), TOLP))
PoseBad(e) == C("geom.pose", \A i \in DOMAIN e.f : LET f == e.f[i]  ref == f.ref IN
     /\ NearP(f.rot1, <<Cos(ref[3]), Sin(ref[3])>>, 6) /\ NearP(f.rot2, <<-Sin(ref[3]), Cos(ref[3])>>, 6)
     /\ NearP(f.trans, ToLocal(ref, <<0, 0>>), TOLP) /\ f.last = <<0, 0, 1>> /\ NearYaw(f.delta, -ref[3]))
   \cup C("geom.points", \A i \in DOMAIN e.f : \A k \in DOMAIN e.f[i].pts : NearP(e.f[i].out[k], ToLocal(e.f[i].ref, e.f[i].pts[k]), TOLP))
   \cup C("geom.directions", \A i \in DOMAIN e.f : \A k \in DOMAIN e.f[i].pts : NearP(e.f[i].dirs[k], DirLocal(e.f[i].ref, e.f[i].pts[k]), TOLP))
   \cup C("geom.yaw", \A i \in DOMAIN e.f : NearYaw(e.f[i].yawout, YawLocal(e.f[i].ref, e.f[i].yawin)))
   \cup C("geom.inverse", \A i \in DOMAIN e.f : LET f == e.f[i] IN \A k \in DOMAIN f.pts : NearP(f.back[k], f.pts[k], 2 * TOLP))
   \cup C("geom.shape", e.oshape = e.wshape)
TrajBad(e) == C("geom.trajectories", \A i \in DOMAIN e.f : LET f == e.f[i] IN
     \A k \in DOMAIN f.in : LET a == f.in[k]  o == f.out[k] IN
        /\ Len(o) = Len(a) /\ NearP(<<o[1], o[2]>>, ToLocal(f.ref, <<a[1], a[2]>>), TOLP)
        /\ o[3] = a[3] /\ o[4] = a[4] /\ NearYaw(o[5], YawLocal(f.ref, a[5]))
        /\ (Len(a) = 7 => NearP(<<o[6], o[7]>>, DirLocal(f.ref, <<a[6], a[7]>>), TOLP)))
   \cup C("geom.traj_shape", e.oshape = e.wshape)
CornerBad(e) == C("geom.corners", \A i \in DOMAIN e.f : LET q == BoxCorners(e.f[i].box) IN Len(e.f[i].out) = 4 /\ \A k \in 1..4 : NearP(e.f[i].out[k], q[k], TOLP))
   \cup C("geom.corner_shape", e.oshape = e.wshape)
PairBad(e) == C("geom.has_overlap", \A i \in DOMAIN e.f : Fits(Meets(e.f[i].a, e.f[i].b), e.f[i].out)) \cup C("geom.overlap_shape", e.oshape = e.wshape)
PairwiseBad(e) == C("geom.pairwise", \A i \in DOMAIN e.boxes, j \in DOMAIN e.boxes :
     IF i = j THEN e.out[i][j] = 0 ELSE e.out[i][j] = e.out[j][i] /\ Fits(Meets(e.boxes[i], e.boxes[j]), e.out[i][j]))
   \cup C("geom.pairwise_shape", e.oshape = e.wshape)
\* fine: in 1/10^8; 314159274 is the float32 number nearest to pi
WrapBad(e) == C("geom.wrap_half_open", \A i \in DOMAIN e.f : e.f[i].fine \in -314159274..314159273) \cup C("geom.wrap_range", \A i \in DOMAIN e.f : e.f[i].out \in (-PI - 1)..PI) \cup C("geom.wrap_same_angle", \A i \in DOMAIN e.f : AngDist(e.f[i].in, e.f[i].out) <= 20 + Abs(e.f[i].in) \div 1000000)
CombineBad(e) == C("geom.combine", \A i \in DOMAIN e.f : LET f == e.f[i] IN \A k \in DOMAIN f.pts :
        NearP(f.out[k], ToLocal(f.dst, ToGlobal(f.src, f.pts[k])), 2 * TOLP) /\ f.valid = f.src[4] * f.dst[4] /\ NearYaw(f.delta, f.src[3] - f.dst[3]))
   \cup C("geom.from_transformation", \A i \in DOMAIN e.f : LET f == e.f[i]  q == PoseIn(f.src, f.dst) IN NearP(f.xy, <<q[1], q[2]>>, 2 * TOLP) /\ NearYaw(f.yaw, q[3]))

Bad == LET e == Traces[tr].ev[l] IN
  CASE e.op = "view" -> ViewBad(e) [] e.op = "window" -> WindowBad(e) [] e.op = "perturb" -> PerturbBad(e) [] e.op = "for_obj" -> ForObjBad(e)
    [] e.op = "topk" -> TopkBad(e) [] e.op = "raises" -> RaisesBad(e)
    [] e.op = "slice" -> SliceBad(e) [] e.op = "update" -> UpdBad(e) [] e.op = "mask" -> MaskBad(e) [] e.op = "onehot" -> PickBad(e)
    [] e.op = "mean" -> MeanBad(e) [] e.op = "fill" -> FillBad(e) [] e.op = "equal" -> EqualBad(e) [] e.op = "bylog" -> ByLogBad(e) [] e.op = "clocked" -> ClockedBad(e)
    [] e.op = "rotation" -> RotBad(e) [] e.op = "pose" -> PoseBad(e) [] e.op = "traj" -> TrajBad(e) [] e.op = "corners" -> CornerBad(e)
    [] e.op = "pair" -> PairBad(e) [] e.op = "pairwise" -> PairwiseBad(e) [] e.op = "wrap" -> WrapBad(e) [] e.op = "combine" -> CombineBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
