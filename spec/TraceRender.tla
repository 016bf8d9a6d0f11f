----------------------------- MODULE TraceRender -----------------------------
(* Judges pictures: what was drawn against the scene that was to be shown.   *)
EXTENDS Render, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].ev) /\ l' = l + 1 /\ UNCHANGED tr
C(name, ok) == IF ok THEN {} ELSE {name}
Sel(seq, P(_)) == {i \in DOMAIN seq : P(seq[i])}

\* --- boxes: lines of five points; arrows: lines of four ---
LinesBad(what, e, n, Is(_, _), exp) ==
  LET drawn == {i \in DOMAIN e.lines : Len(e.lines[i].p) = n}
      plain == {i \in drawn : e.lines[i].c # RED}
      red == {i \in drawn : e.lines[i].c = RED}
      now == {x \in exp : x.at[2] = e.t + 1}
      of(col) == {x \in exp : x.col = col}
  IN C(what \o ".colour", \A i \in drawn : e.lines[i].c \in Colours)
  \cup C(what \o ".number", \A col \in {CONTROLLED, CONTEXT} : Cardinality({i \in plain : e.lines[i].c = col}) = Cardinality(of(col)))
  \cup C(what \o ".missing", \A x \in exp : \E i \in plain : e.lines[i].c = x.col /\ Is(e.lines[i].p, x.box))
  \cup C(what \o ".extra", \A i \in plain : \E x \in exp : e.lines[i].c = x.col /\ Is(e.lines[i].p, x.box))
  \cup C(what \o ".contact", e.t = NONE \/ \A x \in now : Fits(Contact(e.poses, e.t, x.at[1]), IF \E i \in red : Is(e.lines[i].p, x.box) THEN 1 ELSE 0))
  \cup C(what \o ".contact_extra", \A i \in red : \E x \in now : Is(e.lines[i].p, x.box))
  \cup C(what \o ".contact_on_top", \A i \in red : \A j \in plain : i > j)
\* --- dots ---
DotsBad(e) ==
  LET H == IF e.poses = <<>> THEN {} ELSE DotsOf(e.poses, e.t)
      M == {i \in DOMAIN e.rg : e.rg[i][4] = 1 /\ Shown(e.rg[i][3])}
      G == {i \in DOMAIN e.tls : e.tls[i][4] = 1}
      R == UNION {{<<i, j>> : j \in {k \in DOMAIN e.paths[i].p : e.paths[i].p[k][3] = 1}} : i \in {k \in DOMAIN e.paths : e.paths[k].p[1][3] = 1}}
      exp == {<<"hist", s, HISTORY, HISTMS, e.poses[s[1]][s[2]][1], e.poses[s[1]][s[2]][2]>> : s \in H}
        \cup {<<"map", <<i, 0>>, MapColour[e.rg[i][3]], MAPMS, e.rg[i][1], e.rg[i][2]>> : i \in M}
        \cup {<<"light", <<i, 0>>, LightColour[e.tls[i][3]], LIGHTMS, e.tls[i][1], e.tls[i][2]>> : i \in G}
        \cup {<<"path", q, IF e.paths[q[1]].on = 1 THEN ON_ROUTE ELSE OFF_ROUTE, PATHMS, e.paths[q[1]].p[q[2]][1], e.paths[q[1]].p[q[2]][2]>> : q \in R}
      kinds == {<<x[3], x[4]>> : x \in exp}
      Match(d, x) == d.c = x[3] /\ d.ms = x[4] /\ Near(d.x, x[5], 3) /\ Near(d.y, x[6], 3)
      Name(k) == LET s == {x[1] : x \in {y \in exp : <<y[3], y[4]>> = k}} IN CHOOSE n \in s : TRUE
  IN UNION {C("dots.number." \o Name(k), Cardinality({i \in DOMAIN e.dots : <<e.dots[i].c, e.dots[i].ms>> = k}) = Cardinality({x \in exp : <<x[3], x[4]>> = k})) : k \in kinds}
  \cup UNION {C("dots.missing." \o x[1], \E i \in DOMAIN e.dots : Match(e.dots[i], x)) : x \in exp}
  \cup C("dots.extra", \A i \in DOMAIN e.dots : \E x \in exp : Match(e.dots[i], x))
\* --- labels: the number of the object, beside it ---
LabelsBad(e) ==
  LET L == IF e.poses = <<>> \/ e.labels = <<>> THEN {} ELSE {i \in DOMAIN e.poses : e.t # NONE /\ e.poses[i][e.t + 1][6] = 1}
      Beside(x, i) == x.id = e.labels[i] /\ Near(x.x, e.poses[i][e.t + 1][1], 40000) /\ Near(x.y, e.poses[i][e.t + 1][2], 40000)
  IN C("labels.number", Len(e.texts) = Cardinality(L))
  \cup C("labels.missing", \A i \in L : \E k \in DOMAIN e.texts : Beside(e.texts[k], i))
\* --- metric values as text ---
MetricsBad(e) ==
  LET V == {i \in DOMAIN e.metrics : e.metrics[i].ok = 1} IN
     C("metrics.number", Len(e.mtexts) = Cardinality(V))
  \cup C("metrics.text", \A i \in V : \E k \in DOMAIN e.mtexts : e.mtexts[k].name = e.metrics[i].name /\ Near(e.mtexts[k].v, e.metrics[i].v, 55))
  \cup C("metrics.inside", \A k \in DOMAIN e.mtexts : e.mtexts[k].inside = 1)
\* --- the window and the image ---
ViewIs(e, centre) ==
  LET w == View(centre, e.view) IN
     C("view.window", \A i \in 1..4 : Near(e.view.lim[i], w[i], 5))
  \cup C("view.size", e.view.shape = <<e.view.h, e.view.w, 3>> /\ e.view.dtype = "uint8")
  \cup C("view.image", e.view.same = 1)
  \cup C("view.closed", e.view.left = 0)
ViewBad(e) == IF e.view.on = 0 THEN {} ELSE ViewIs(e, Centre(e.poses, e.t, e.view.who))
\* the figure helpers alone, and the image file
HelperBad(e) == ViewIs(e, e.at) \cup C("image.file", e.saved = 1)
PicBad(e) ==
  LET exp == IF e.poses = <<>> \/ e.t = NONE THEN {} ELSE BoxesOf(e.poses, e.ctrl, e.t) IN
     LinesBad("boxes", e, 5, IsBox, exp) \cup LinesBad("arrows", e, 4, IsArrow, exp)
  \cup C("lines.kind", \A i \in DOMAIN e.lines : Len(e.lines[i].p) \in {4, 5})
  \cup DotsBad(e) \cup LabelsBad(e) \cup MetricsBad(e) \cup ViewBad(e)
  \cup C("input.kept", e.kept = 1)
PaletteBad(e) ==
     C("palette.count", Len(e.got) = e.n)
  \cup C("palette.distinct", \A i, j \in DOMAIN e.rgb : i # j => e.rgb[i] # e.rgb[j])
  \cup C("palette.range", \A i \in DOMAIN e.got : e.got[i][1] <= e.hue /\ \A k \in 1..3 : e.rgb[i][k] \in 0..10000)
RejectBad(e) == C("rejects." \o e.what, e.out = IF e.bad = 1 THEN "ValueError" ELSE "ok")

Bad == LET e == Traces[tr].ev[l] IN IF e.op = "pic" THEN PicBad(e) ELSE IF e.op = "helper" THEN HelperBad(e) ELSE IF e.op = "palette" THEN PaletteBad(e) ELSE RejectBad(e)
Report == l = 0 \/ LET b == Bad IN b = {} \/ PrintT("@@" \o ToJson([tr |-> tr, l |-> l, bad |-> b]))
=============================================================================
