------------------------------ MODULE IkTrace ------------------------------
(* Validation of recorded histories of the IK solvers against Ik.tla (C22).    *)
EXTENDS Ik, Common

E0 == [x \in {} |-> 0]
OQ(e, r) == Fn(Fn(e.st)[r].q)
StOK(e, R) ==
  /\ Eq("robots", DOMAIN R, DOMAIN Fn(e.st))
  /\ \A r \in DOMAIN R :
       /\ Eq(<<"place of the robot", r>>, R[r].pose, Fn(e.st)[r].p)
       /\ Eq(<<"joints", r>>, DOMAIN R[r].q, DOMAIN OQ(e, r))
       /\ \A n \in DOMAIN R[r].q : Chk(<<"joint value", r, n, R[r].q[n], OQ(e, r)[n]>>, Ab(R[r].q[n] - OQ(e, r)[n]) <= 1)
OthersOK(e, r) == StOK([e EXCEPT !.st = [x \in (DOMAIN e.st) \ {r} |-> e.st[x]]], Without(rb, r))
Only(S) == /\ IF "rb" \in S THEN TRUE ELSE UNCHANGED rb
           /\ IF "dik" \in S THEN TRUE ELSE UNCHANGED dik
           /\ IF "com" \in S THEN TRUE ELSE UNCHANGED com
           /\ IF "gik" \in S THEN TRUE ELSE UNCHANGED gik
           /\ IF "obj" \in S THEN TRUE ELSE UNCHANGED obj
           /\ IF "hier" \in S THEN TRUE ELSE UNCHANGED hier
           /\ IF "con" \in S THEN TRUE ELSE UNCHANGED con
           /\ IF "cik" \in S THEN TRUE ELSE UNCHANGED cik
Same(e) == StOK(e, rb) /\ Only({})
(* joint values observed after a solver; lattice values stay exact *)
Adopt(e, r) == rb' = [rb EXCEPT ![r].q = [n \in DOMAIN rb[r].q |-> IF Ab(OQ(e, r)[n] - rb[r].q[n]) <= 1 THEN rb[r].q[n] ELSE
                         IF n \in {} THEN 0 ELSE LET v == OQ(e, r)[n] IN IF v % 1000 = 0 THEN v + 1 ELSE v]]
(* the part of the contract every solver obeys *)
Contract(e, r, js, a) ==
  /\ OthersOK(e, r)
  /\ Eq("place of the robot", rb[r].pose, Fn(e.st)[r].p)
  /\ Chk(<<"joints moved or out of their limits", { n \in DOMAIN rb[r].q : ~InRange(r, n, OQ(e, r)[n]) \/ (n \notin js /\ Ab(OQ(e, r)[n] - rb[r].q[n]) > 1) }, OQ(e, r)>>, MayMove(r, js, OQ(e, r)))
  /\ Eq("poses that do not fit the joint values", 0, a.stale)

NewRobot(e) ==
  LET nd == Fn(e.nd) IN
  /\ e.ok
  /\ rb' = With(rb, e.r, [nd |-> nd, pose |-> IdPose, q |-> [n \in { n \in DOMAIN nd : nd[n].typ # "fixed" } |-> 0], set |-> Fn(e.sets), eef |-> Fn(e.eefs)])
  /\ StOK(e, rb') /\ Only({"rb"})

JacOK(e, r, exp) == Known(r) => Eq("Jacobian", exp, e.res)
Goals(x) == dik[x].goals
RECURSIVE Stack(_, _, _)
Stack(x, k, sc) == IF k > Len(Goals(x)) THEN <<>> ELSE
  LET d == dik[x]  g == Goals(x)[k] IN JacRows(d.r, d.set, g.t, g.sel, d.coord, d.mm, sc) \o Stack(x, k + 1, sc)

(* the stacked error: e.d hundredths of the way *)
Capped(d, ms, v, w, st) ==     \* v is the model's delta in mm, w the observed one in 1/1000 mm
  LET n2 == Dot3(d, d) IN
  IF ms > 0 /\ n2 * (st \div 25) * (st \div 25) > ms * ms * 16
  THEN TRUE ELSE Ab(w - 10 * st * v) <= 2
RECURSIVE ErrOK(_, _, _)
ErrOK(e, k, at) ==
  LET x == e.x  d == dik[x] IN
  IF k > Len(Goals(x)) THEN Eq("length of the error", at - 1, Len(e.res)) ELSE
  LET g == Goals(x)[k]  n == Len(SelSeq(g.sel))
      dl == Sub3(Pos(g.p), Pos(Gp(d.r, g.t)))
      ds == DiffSel(dl, g.sel)  c == n + (IF OriSel(g.sel) THEN 3 ELSE 0)
      w == [z \in 1..n |-> e.res[at + z - 1]]
  IN /\ Chk(<<"error has all components", e.res>>, Len(e.res) >= at + c - 1)
     /\ \A z \in 1..n : Chk(<<"position error", k, z, dl[SelSeq(g.sel)[z]], w[z]>>, Capped(ds, d.maxs, dl[SelSeq(g.sel)[z]], w[z], e.d))
     /\ IF d.maxs > 0 THEN Chk(<<"longest step", w>>, SumSeq([z \in 1..n |-> (w[z] \div 50) * (w[z] \div 50)]) <= (20 * d.maxs + 3) * (20 * d.maxs + 3)) ELSE TRUE
     /\ IF OriSel(g.sel)     \* reported in radian / 1000: 1 degree = 17.4533
        THEN LET v == [z \in 1..3 |-> (e.res[at + n + z - 1] * 5730) \div e.d] IN      \* thousandths of a degree
             Chk(<<"orientation error", k, v, DeltaRot(Gp(d.r, g.t), g.p)>>, RotVecOK(DeltaRot(Gp(d.r, g.t), g.p), v, 40 + 6000 \div e.d))
        ELSE TRUE
     /\ ErrOK(e, k + 1, at + c)

GoalOf(x, t) == LET d == dik[x] IN CHOOSE g \in ToSet_(d.goals) : g.t = TcpOf(d.r, d.set, t)
HasGoal(x, t) == LET d == dik[x] IN \E g \in ToSet_(d.goals) : g.t = TcpOf(d.r, d.set, t)
FineAll(gs, ts, r, s, t) == \A g \in gs : \A k \in 1..Len(ts) : TcpOf(r, s, ts[k]) = g.t => Chk(<<"success although the goal is missed", g, t[k]>>, FineMet(g, t[k]))
AtGoal(r, g) == PosErr2(r, g) = 0 /\ RotErr(r, g) = 0

GraspGoal(o, k) == Mul(obj[o].p, Inv(obj[o].gr[k]))
GSolve(e) ==
  LET g == gik[e.g]  r == g.r  js == JointsOf(r, g.set)  a == e.res.a  tcp == rb[r].set[g.set].tcp
      goal(p) == [t |-> tcp, p |-> p, sel |-> IF e.k = 1 THEN 7 ELSE e.sel, tp |-> g.tp, tr |-> g.tr]
      at == e.res.at
      eefs == { f \in DOMAIN rb[r].eef : rb[r].eef[f] = tcp }
      p == CASE e.k \in {0, 1, 2} -> e.p [] e.k = 3 -> GraspGoal(e.o, e.gi + 1) [] OTHER -> IdPose
      clean == Known(r) /\ AtGoal(r, goal(p)) /\ g.obs = "-" /\ ~g.reach /\ g.m = 1
  IN
  /\ Contract(e, r, js, a)
  /\ IF a.ok
     THEN /\ IF e.k = 4
             THEN /\ Chk(<<"grasp of the object", e.res.g>>, eefs # {} /\ obj[e.o].def /\ \E k \in 1..Len(obj[e.o].gr) : e.res.g = "g" \o ToString(k - 1))
                  /\ \A k \in 1..Len(obj[e.o].gr) : e.res.g = "g" \o ToString(k - 1) => Chk(<<"reported grasp is not reached", k, at>>, FineMet(goal(GraspGoal(e.o, k)), at))
             ELSE Chk(<<"success although the goal is missed", p, at>>, FineMet(goal(p), at))
          /\ g.obs # "-" => Chk("success although in collision", ~a.col)
          /\ Chk("success although not reachable", e.res.reach)
     ELSE TRUE
  /\ (g.reach /\ ~e.res.reach) => Kept(r, OQ(e, r))
  /\ e.k = 2 => /\ Chk("joint values restored", Kept(r, OQ(e, r)))
                /\ Eq("solution", IF a.ok THEN Len(SetOf(r, g.set)) ELSE 0, e.res.n)
  /\ (e.k \in {3, 4} /\ ~a.ok) => Chk("joint values restored after failure", Kept(r, OQ(e, r)))
  /\ (e.k <= 3 /\ clean) => Chk("fails although the goal is met already", a.ok)
  /\ Adopt(e, r)
  /\ Only({"rb"})

(* parts of the constrained solvers *)
KSolve(e) ==
  LET k == cik[e.kk]  r == k.r  js == JointsOf(r, k.set)  a == e.res.a
      soft(c) == con[c.c].kind \in {"ref", "jla"}
      hard == { c \in k.cs : IF k.ty = 2 THEN ~soft(c) ELSE c.h }
      pose(c) == CHOOSE n \in 1..Len(e.ts) : e.ts[n] = con[c.c].t
  IN
  /\ Contract(e, r, js, a)
  /\ Eq("initialised", TRUE, e.res.ini)
  /\ Eq("updates of the visualization as before", TRUE, e.res.uv)
  /\ Eq("updates of the collision model as before", TRUE, e.res.uc)
  /\ a.ok => \A c \in hard : LET q == con[c.c] IN
        Chk(<<"success although a constraint is violated", c.c, q>>, ConFineMet(q, IF q.kind \in {"pos", "ori", "pose", "tsr"} THEN a.t[pose(c)] ELSE <<>>, a.com, a.col))
  /\ Adopt(e, r)
  /\ Only({"rb"})

Deg(v) == v \div 1000
(* support polygons: hull of the corners of the feet on the floor *)
FootPts(r, n) ==      \* tenths of a millimetre
  LET g == Gp(r, n)  b == Nd(r, n).box
      c == { Apply(g, <<sx*b[1], sy*b[2], sz*b[3]>>) : sx \in {-1, 1}, sy \in {-1, 1}, sz \in {-1, 1} }
  IN { <<10 * p[1], 10 * p[2]>> : p \in { p \in c : Ab(p[3]) <= 4 } }
(* a foot that stands flat on the floor: lo x, hi x, lo y, hi y in 1/10 mm *)
Rect(r, n) ==
  LET P == FootPts(r, n)  xs == { p[1] : p \in P }  ys == { p[2] : p \in P } IN
  IF Cardinality(P) = 4 /\ Cardinality(xs) = 2 /\ Cardinality(ys) = 2
  THEN << CHOOSE x \in xs : \A y \in xs : x <= y, CHOOSE x \in xs : \A y \in xs : x >= y, CHOOSE x \in ys : \A y \in ys : x <= y, CHOOSE x \in ys : \A y \in ys : x >= y >> ELSE <<>>
(* distance of the centre of mass from each side (inside is positive), 1/10 mm *)
Margins(k, r) == LET q == Rect(r, k.ft)  bs == SetOf(r, k.t)  m == Mass(r, bs)  s == MassPos(r, bs) IN
  << (10 * s[1]) \div m - q[1], q[2] - (10 * s[1]) \div m, (10 * s[2]) \div m - q[3], q[4] - (10 * s[2]) \div m >>
Least(v) == Mn(Mn(v[1], v[2]), Mn(v[3], v[4]))
BalKnown(k, r) == Known(r) /\ Rect(r, k.ft) # <<>> /\ Mass(r, SetOf(r, k.t)) > 0
BalTol(e, k, r) ==
  LET d == Least(Margins(k, r))  q == Rect(r, k.ft)  half == Mn(q[2] - q[1], q[4] - q[3])
      ix == Mn(10000, ((d * 2000) \div half) * 10) IN
  IF k.sel = 0 THEN e.res ELSE IF d < -1 THEN ~e.res ELSE IF ix > 1000 * k.sel + 100 THEN e.res ELSE IF ix < 1000 * k.sel - 100 THEN ~e.res ELSE TRUE
BalVal(e, k, r) ==
  LET d == Least(Margins(k, r)) IN /\ 0 <= e.res /\ e.res <= 10000 /\ (d < -1 => e.res >= 4990) /\ (d > 700 => e.res <= 45) /\ (d > 1 => e.res <= 9380)
BalGrad(e, k, r) ==
  LET m == Margins(k, r)  js == SetOf(r, k.set)  c(j) == MassCol(r, SetOf(r, k.t), j, "-")
      out(a, b, x) == m[a] < -200 /\ m[a] > -1500 /\ m[b] > 200 /\ m[x] > 200 /\ m[x + 1] > 200
      dir(a, x, y, sg) == \A z \in 1..Len(js) : LET v == c(js[z]) IN (Ab(v[x]) > 2 * Ab(v[y]) /\ Ab(v[x]) > 10) => sg * v[x] * (IF e.res[z] > 0 THEN 1 ELSE IF e.res[z] < 0 THEN -1 ELSE 0) > 0
  IN /\ out(1, 2, 3) => dir(1, 1, 2, -1)      \* too far to the left: moving right makes it smaller
     /\ out(2, 1, 3) => dir(2, 1, 2, 1)
     /\ out(3, 4, 1) => dir(3, 2, 1, -1)
     /\ out(4, 3, 1) => dir(4, 2, 1, 1)
(* value and gradient of a constraint *)
RelNear(a, b, abs, rel) == Ab(a - b) <= abs + Ab(b) \div rel
CVal(e, k, r) ==
  CASE k.kind = "bal" -> BalKnown(k, r) => BalVal(e, k, r)
    []  k.kind = "pos" -> RelNear(e.res, PosErr2(r, ConGoal(k)), 2, 50000)
    [] k.kind = "ori" -> LET a == RotErr(r, ConGoal(k)) \div 1000 IN RelNear(e.res, a * a, 2, 10000)
    [] k.kind = "pose" -> IF e.id = 0 THEN LET g == ConGoal(k) IN IF k.sel \in {1, 2, 4, 7, 15, 8} THEN RelNear(e.res, IF k.sel = 8 THEN 0 ELSE PosErr2(r, g), 2, 50000) ELSE TRUE
                          ELSE LET a == RotErr(r, ConGoal(k)) \div 1000 IN RelNear(e.res, IF k.sel \in {8, 15} THEN a * a ELSE 0, 2, 10000)
    [] k.kind \in {"com2", "com3"} ->
         LET bs == SetOf(r, k.t)  m == Mass(r, bs)  s == MassPos(r, bs)
             d == [z \in 1..3 |-> IF z <= ComDims(k) THEN s[z] - m * Pos(k.p)[z] ELSE 0]
         IN RelNear(e.res * m * m, Dot3(d, d), m * m, 10000)
    [] k.kind \in {"ref", "jla"} ->
         LET js == SetOf(r, k.set)
             dv(z) == LET n == js[z] IN IF k.kind = "jla" THEN (IF Nd(r, n).free THEN 0 ELSE Deg(rb[r].q[n] - (Nd(r, n).lo + Nd(r, n).hi) \div 2)) ELSE Deg(rb[r].q[n]) - k.v[z]
         IN RelNear(e.res, SumSeq([z \in 1..Len(js) |-> dv(z) * dv(z)]), 20, 1000)
    [] OTHER -> TRUE
GradNear(w, exp) == Len(w) = Len(exp) /\ \A z \in 1..Len(w) : RelNear(w[z], exp[z], 5, 20000)
CGrad(e, k, r) ==
  LET js == SetOf(r, k.set)  g == ConGoal(k)
      dpos == DiffSel(Sub3(Pos(Gp(r, g.t)), Pos(g.p)), PosOnly(k.sel))
      pj(f) == [z \in 1..Len(js) |-> f * Dot3(dpos, ColPos(r, js[z], g.t, Pos(Gp(r, g.t)), "-"))]
      D == Mul(Gp(r, g.t), Inv(g.p))
      \* twice the rotation vector in thousandths of a degree
      rot(t) == CASE Trace3(t) = 3 -> Zero3 [] Trace3(t) = 1 -> Mul3(90000, Skew3(t)) [] OTHER -> Mul3(138564, Skew3(t))
      rj == [z \in 1..Len(js) |-> Dot3(rot(D), ColRot(r, js[z], g.t, "-"))]
      zero == [z \in 1..Len(js) |-> 0]
  IN
  CASE k.kind = "bal" -> BalKnown(k, r) => BalGrad(e, k, r)
    [] k.kind = "pos" -> GradNear(e.res, pj(2))
    [] k.kind = "ori" -> Trace3(D) = -1 \/ (\A z \in 1..Len(js) : Ab(e.res[z] - (IF OriSel(k.sel) THEN rj[z] ELSE 0)) <= 50)
    [] k.kind = "pose" -> IF e.id = 0 THEN (k.sel \in {1, 2, 4, 7, 15} => (GradNear(e.res, pj(20)) \/ GradNear(e.res, pj(2)))) /\ (k.sel = 8 => GradNear(e.res, zero))
                          ELSE Trace3(D) = -1 \/ (\A z \in 1..Len(js) : Ab(e.res[z] - (IF k.sel \in {8, 15} THEN rj[z] ELSE 0)) <= 50)
    [] k.kind \in {"com2", "com3"} ->
         LET bs == SetOf(r, k.t)  m == Mass(r, bs)  s == MassPos(r, bs)
             d == [z \in 1..3 |-> IF z <= ComDims(k) THEN s[z] - m * Pos(k.p)[z] ELSE 0]
         IN \A z \in 1..Len(js) : RelNear(e.res[z] * m * m, 2 * Dot3(d, MassCol(r, bs, js[z], "-")), 3 * m * m, 5000)
    [] k.kind \in {"ref", "jla"} ->
         \A z \in 1..Len(js) : LET n == js[z]
             dv == IF k.kind = "jla" THEN (IF Nd(r, n).free THEN 0 ELSE rb[r].q[n] - (Nd(r, n).lo + Nd(r, n).hi) \div 2) ELSE rb[r].q[n] - 1000 * k.v[z]
         IN Ab(e.res[z] - 2 * dv) <= 60
    [] OTHER -> TRUE

Side(a, b, p) == (b[1]-a[1])*(p[2]-a[2]) - (b[2]-a[2])*(p[1]-a[1])
Hull(P) == { <<a, b>> \in P \X P : a # b /\ (\A p \in P : Side(a, b, p) >= 0)
               /\ \A p \in P : Side(a, b, p) = 0 => ((p[1]-a[1])*(b[1]-a[1]) + (p[2]-a[2])*(b[2]-a[2]) >= 0 /\ (p[1]-b[1])*(a[1]-b[1]) + (p[2]-b[2])*(a[2]-b[2]) >= 0) }
Support(e) ==
  LET r == e.r  P == UNION { FootPts(r, e.fs[k]) : k \in 1..Len(e.fs) }
      H == Hull(P)  V == { h[1] : h \in H }
      bs == SetOf(r, e.b)  m == Mass(r, bs)  s == MassPos(r, bs)
      sd == { LET h1 == Mul3(m, <<h[1][1], h[1][2], 0>>)  h2 == Mul3(m, <<h[2][1], h[2][2], 0>>) IN
              (h[2][1]-h[1][1])*(10*s[2]-h1[2]) - (h[2][2]-h[1][2])*(10*s[1]-h1[1]) : h \in H }
      xs == { p[1] : p \in P }  ys == { p[2] : p \in P }
      lx == CHOOSE x \in xs : \A y \in xs : x <= y   hx == CHOOSE x \in xs : \A y \in xs : x >= y
      ly == CHOOSE x \in ys : \A y \in ys : x <= y   hy == CHOOSE x \in ys : \A y \in ys : x >= y
      half == Mn(hx - lx, hy - ly)                         \* twice the distance of the centre from the border
      dist == Mn(Mn(10*s[1] - m*lx, m*hx - 10*s[1]), Mn(10*s[2] - m*ly, m*hy - 10*s[2]))     \* times m
  IN
  IF ~Known(r) THEN TRUE ELSE
  IF Cardinality(P) < 3 \/ lx = hx \/ ly = hy THEN Eq("stability without a support", 0, e.res.i) ELSE
  /\ Eq("support polygon", V, { <<e.res.v[k][1], e.res.v[k][2]>> : k \in 1..Len(e.res.v) })
  /\ IF m = 0 THEN TRUE ELSE
     IF \E x \in sd : x < 0 THEN Eq("stability outside of the polygon", 0, e.res.i)
     ELSE IF \E x \in sd : x = 0 THEN Chk("stability on the border", e.res.i = 0)
     ELSE /\ Chk(<<"stability inside of the polygon", e.res.i>>, 0 < e.res.i /\ e.res.i <= 10000)
          /\ IF Cardinality(V) = 4 /\ { <<lx, ly>>, <<lx, hy>>, <<hx, ly>>, <<hx, hy>> } = V
             THEN Chk(<<"stability of a rectangle", e.res.i, dist, half, m>>, Ab(e.res.i - Mn(10000, ((dist * 100) \div (half * m)) * 200)) <= 220) ELSE TRUE

(* the constraints of a solver, the most important first *)
Listed(e, cs) == Chk(<<"constraints", cs, e.res>>,
  /\ Len(e.res) = Cardinality(cs) /\ ToSet_(e.res) = { c.c : c \in cs }
  /\ \A k, m \in 1..Len(e.res) : k < m => (CHOOSE c \in cs : c.c = e.res[k]).prio >= (CHOOSE c \in cs : c.c = e.res[m]).prio)
Step(e) ==
  CASE e.op = "reset" -> /\ rb' = E0 /\ dik' = E0 /\ com' = E0 /\ gik' = E0 /\ obj' = E0 /\ hier' = E0 /\ con' = E0 /\ cik' = E0
    [] ~e.ok -> Chk(<<"operation failed", e.op>>, FALSE)
    [] e.op \in {"seed", "obs"} -> Same(e)
    [] e.op = "robot" -> NewRobot(e)
    [] e.op = "att" -> /\ Eq("attached", TRUE, e.res)
                       /\ rb' = [rb EXCEPT ![e.r].nd = With(rb[e.r].nd, e.k, [par |-> e.n, typ |-> "fixed", ax |-> Zero3, lo |-> 0, hi |-> 0, free |-> FALSE, loc |-> e.p, mass |-> 0, com |-> Zero3, box |-> Zero3])]
                       /\ StOK(e, rb') /\ Only({"rb"})
    [] e.op = "rpose" -> Place(e.r, e.p) /\ StOK(e, rb') /\ Only({"rb"})
    [] e.op = "q" -> SetQ(e.r, [n \in ToSet_(e.ns) |-> 1000 * e.vs[CHOOSE k \in 1..Len(e.ns) : e.ns[k] = n]]) /\ StOK(e, rb') /\ Only({"rb"})
    [] e.op = "com" -> /\ Same(e)
                       /\ LET ns == IF e.s = "-" THEN SetToSeq(Nds(e.r)) ELSE SetOf(e.r, e.s)  m == Mass(e.r, ns)  w == MassPos(e.r, ns) IN
                          Known(e.r) => IF m = 0 THEN TRUE ELSE Chk(<<"centre of mass", w, m, e.res>>, \A k \in 1..3 : Ab(e.res[k] * m - 1000 * w[k]) <= 4 * m)
    [] e.op = "ik" -> dik' = With(dik, e.x, [r |-> e.r, set |-> e.s, coord |-> e.c, mm |-> e.mm, maxs |-> e.ms, m |-> e.m, goals |-> <<>>]) /\ StOK(e, rb) /\ Only({"dik"})
    [] e.op = "goal" -> /\ AddGoal(e.x, [t |-> TcpOf(dik[e.x].r, dik[e.x].set, e.t), p |-> IF e.v THEN Trans(Pos(e.p)) ELSE e.p, sel |-> e.sel, tp |-> e.tp, tr |-> e.tr])
                        /\ StOK(e, rb) /\ Only({"dik"})
    [] e.op = "jac" -> LET d == dik[e.x] IN Same(e) /\ JacOK(e, d.r, JacRows(d.r, d.set, TcpOf(d.r, d.set, e.t), e.sel, d.coord, d.mm, e.sc))
    [] e.op = "jacx" -> Same(e) /\ JacOK(e, dik[e.x].r, Stack(e.x, 1, e.sc))
    [] e.op = "errx" -> Same(e) /\ (Known(dik[e.x].r) => ErrOK(e, 1, 1))
    [] e.op = "tolx" -> LET d == dik[e.x] IN
                        /\ Same(e)
                        /\ Known(d.r) => /\ \A k \in 1..Len(e.ts) : HasGoal(e.x, e.ts[k]) =>
                                               LET g == GoalOf(e.x, e.ts[k]) IN
                                               /\ Eq(<<"squared distance to the goal", e.ts[k]>>, PosErr2(d.r, g), e.res.p[k])
                                               /\ Chk(<<"angle to the goal", e.ts[k], RotErr(d.r, g), e.res.o[k]>>, Ab(RotErr(d.r, g) - e.res.o[k]) <= 60)
                                         /\ Eq("goals within their tolerances", \A g \in ToSet_(d.goals) : GoalMet(d.r, g), e.res.t)
    [] e.op = "delta" -> /\ Same(e)
                         /\ LET d == DiffSel(Sub3(Pos(e.p2), Pos(e.p)), e.sel)  D == IF OriSel(e.sel) THEN DeltaRot(e.p, e.p2) ELSE IdPose IN
                            /\ \A k \in 1..3 : Chk(<<"difference of positions", d, e.res>>, Ab(1000 * d[k] - e.res[k]) <= 2)
                            /\ Chk(<<"rotation between poses", D, e.res>>, RotVecOK(D, <<e.res[4], e.res[5], e.res[6]>>, 60))
    [] e.op = "solve" -> LET d == dik[e.x] IN
                         /\ Contract(e, d.r, JointsOf(d.r, d.set), e.res)
                         /\ e.res.ok => FineAll(ToSet_(d.goals), e.ts, d.r, d.set, e.res.t)
                         /\ (Known(d.r) /\ d.m = 1 /\ e.n > 0 /\ \A g \in ToSet_(d.goals) : AtGoal(d.r, g)) => Chk("fails although the goal is met already", e.res.ok)
                         /\ Adopt(e, d.r) /\ Only({"rb"})
    [] e.op = "comik" -> com' = With(com, e.y, [r |-> e.r, j |-> e.j, b |-> e.b, coord |-> e.c, dims |-> e.dm, v |-> <<0, 0, 0>>, tp |-> 0]) /\ StOK(e, rb) /\ Only({"com"})
    [] e.op = "cgoal" -> com' = [com EXCEPT ![e.y].v = e.vs, ![e.y].tp = e.tp] /\ StOK(e, rb) /\ Only({"com"})
    [] e.op = "cjac" -> LET c == com[e.y]  js == SetOf(c.r, c.j)  bs == SetOf(c.r, c.b)  m == Mass(c.r, bs) IN
                        /\ Same(e)
                        /\ Known(c.r) => /\ Eq("rows", Len(c.v), Len(e.res))
                                         /\ \A z \in 1..Len(c.v) : \A k \in 1..Len(js) : Chk(<<"Jacobian of the centre of mass", z, js[k], MassCol(c.r, bs, js[k], c.coord)[z], m, e.res[z][k]>>,
                                               Ab(e.res[z][k] * m - 1000 * MassCol(c.r, bs, js[k], c.coord)[z]) <= 4 * m)
    [] e.op = "cerr" -> LET c == com[e.y]  bs == SetOf(c.r, c.b)  m == Mass(c.r, bs)  s == MassPos(c.r, bs)
                            d == [k \in 1..3 |-> IF k <= Len(c.v) THEN m * c.v[k] - s[k] ELSE 0] IN
                        /\ Same(e)
                        /\ Known(c.r) => /\ \A k \in 1..Len(c.v) : Chk(<<"error of the centre of mass", d, m, e.res>>, Ab(e.res.e[k] * m - 1000 * d[k]) <= 4 * m)
                                         /\ Eq("tolerance of the centre of mass", Below(d, m * c.tp), e.res.t)
    [] e.op = "csolve" -> LET c == com[e.y] IN
                          /\ Contract(e, c.r, JointsOf(c.r, c.j), e.res)
                          /\ e.res.ok => Chk(<<"success although the centre of mass is elsewhere", c, e.res.com>>, CoMWithin(e.res.com, IF Len(c.v) = 2 THEN <<c.v[1], c.v[2], 0>> ELSE c.v, Len(c.v), c.tp))
                          /\ Adopt(e, c.r) /\ Only({"rb"})
    [] e.op = "pinv" ->
         LET cols == Len(e.v) \div e.rows
             J == [z \in 1..e.rows |-> [k \in 1..cols |-> (IF e.g = <<>> THEN 1 ELSE e.g[z]) * e.v[(z-1)*cols + k] * (IF e.w = <<>> \/ e.m = 1 THEN 1 ELSE e.w[k])]]
             P == [k \in 1..cols |-> [z \in 1..e.rows |-> e.res[k][z] \div ((IF e.g = <<>> THEN 1 ELSE e.g[z]) * (IF e.w = <<>> \/ e.m = 1 THEN 1 ELSE e.w[k]))]]
         IN /\ Same(e)
            /\ Eq("rows of the inverse", cols, Len(e.res))
            /\ IF e.m = 1 THEN Chk(<<"damped pseudo inverse", J, P>>, IsDamped(J, P, 100000, e.lam, 4000)) ELSE Chk(<<"pseudo inverse", J, P>>, IsPinv(J, P, 100000, 6000))
    [] e.op = "gik" -> gik' = With(gik, e.g, [r |-> e.r, set |-> e.s, m |-> e.m, tp |-> 2, tr |-> 5, obs |-> "-", reach |-> FALSE]) /\ StOK(e, rb) /\ Only({"gik"})
    [] e.op = "gset" -> gik' = [gik EXCEPT ![e.g].tp = e.tp, ![e.g].tr = e.tr] /\ StOK(e, rb) /\ Only({"gik"})
    [] e.op = "gcol" -> gik' = [gik EXCEPT ![e.g].obs = e.o] /\ StOK(e, rb) /\ Only({"gik"})
    [] e.op = "greach" -> gik' = [gik EXCEPT ![e.g].reach = TRUE] /\ Only({"gik"})
    [] e.op = "gobj" -> obj' = With(obj, e.o, [p |-> e.p, gr |-> IF e.n < 0 THEN <<>> ELSE [k \in 1..e.n |-> SubSeq(e.gs, 12*k - 11, 12*k)], def |-> e.n >= 0]) /\ StOK(e, rb) /\ Only({"obj"})
    [] e.op = "gsolve" -> GSolve(e)
    [] e.op = "hik" -> hier' = With(hier, e.h, [r |-> e.r, set |-> e.s, xs |-> {}, ys |-> {}, jla |-> FALSE]) /\ StOK(e, rb) /\ Only({"hier"})
    [] e.op = "hadd" -> /\ hier' = [hier EXCEPT ![e.h].xs = @ \cup (IF e.k = 0 THEN {e.x} ELSE {}), ![e.h].ys = @ \cup (IF e.k = 1 THEN {e.x} ELSE {}), ![e.h].jla = @ \/ e.k = 2]
                        /\ StOK(e, rb) /\ Only({"hier"})
    [] e.op = "hsolve" -> LET h == hier[e.h] IN
                          /\ Contract(e, h.r, JointsOf(h.r, h.set), e.res)
                          /\ e.res.ok => /\ Chk("success although joint limits are always to be avoided further", ~h.jla)
                                         /\ \A x \in h.xs : FineAll(ToSet_(Goals(x)), e.ts, h.r, dik[x].set, e.res.t)
                                         /\ \A y \in h.ys : LET c == com[y] IN Chk(<<"success although the centre of mass is elsewhere", c, e.res.com>>, CoMWithin(e.res.com, IF Len(c.v) = 2 THEN <<c.v[1], c.v[2], 0>> ELSE c.v, Len(c.v), c.tp))
                          /\ Adopt(e, h.r) /\ Only({"rb"})
    [] e.op = "hstep" -> LET d == dik[e.xs[1]]  J == Stack(e.xs[1], 1, 1) IN
                         /\ Same(e)
                         /\ (Known(d.r) /\ \A k \in 1..Len(e.res.d) : Ab(e.res.d[k]) <= 1000000) => \A z \in 1..Len(J) : Chk(<<"tasks of lower priority disturb the first one", z, J[z], e.res>>,
                               Ab(SumSeq([k \in 1..Len(J[z]) |-> J[z][k] * (e.res.d[k] - e.res.f[k])])) <= 40 + SumSeq([k \in 1..Len(J[z]) |-> Ab(J[z][k])]) * 2 + SumSeq([k \in 1..Len(J[z]) |-> (Ab(J[z][k]) * ((Ab(e.res.d[k]) + Ab(e.res.f[k])) \div 1000))]))
    [] e.op = "gaze" -> /\ Contract(e, e.r, JointsOf(e.r, e.s), e.res)
                        /\ e.res.ok => Chk(<<"success although the gaze misses the goal", e.v, e.res.t[1]>>, FineMet([t |-> "-", p |-> Trans(e.v), sel |-> 7, tp |-> e.tp, tr |-> 0], e.res.t[1]))
                        /\ Adopt(e, e.r) /\ Only({"rb"})
    [] e.op = "con" -> con' = With(con, e.k, [r |-> e.r, set |-> e.s, kind |-> e.kind, t |-> e.t, p |-> e.p, sel |-> e.sel, tp |-> e.tp, tr |-> e.tr, v |-> e.vs, off |-> e.off, ft |-> e.ft]) /\ StOK(e, rb) /\ Only({"con"})
    [] e.op = "ctgt" -> con' = [con EXCEPT ![e.k].p = e.p] /\ StOK(e, rb) /\ Only({"con"})
    [] e.op = "ctol" -> Same(e) /\ LET k == con[e.k] IN IF k.kind = "bal" THEN BalKnown(k, k.r) => Chk(<<"balance", k, e.res>>, BalTol(e, k, k.r))
                                      ELSE Known(k.r) => Eq(<<"constraint within its tolerance", k>>, ConMet(k.r, k), e.res)
    [] e.op = "cval" -> Same(e) /\ (Known(con[e.k].r) => Chk(<<"value of the constraint", con[e.k], e.res>>, CVal(e, con[e.k], con[e.k].r)))
    [] e.op = "cgrad" -> Same(e) /\ (Known(con[e.k].r) => Chk(<<"gradient of the constraint", con[e.k], e.res>>, CGrad(e, con[e.k], con[e.k].r)))
    [] e.op = "cik" -> cik' = With(cik, e.kk, [r |-> e.r, set |-> e.s, ty |-> e.ty, cs |-> {}]) /\ StOK(e, rb) /\ Only({"cik"})
    [] e.op = "cadd" -> Listed(e, { c \in cik[e.kk].cs : c.c # e.c } \cup {[c |-> e.c, h |-> e.h, prio |-> e.prio]}) /\ cik' = [cik EXCEPT ![e.kk].cs = { c \in @ : c.c # e.c } \cup {[c |-> e.c, h |-> e.h, prio |-> e.prio]}] /\ StOK(e, rb) /\ Only({"cik"})
    [] e.op = "crem" -> Listed(e, { c \in cik[e.kk].cs : c.c # e.c }) /\ cik' = [cik EXCEPT ![e.kk].cs = { c \in @ : c.c # e.c }] /\ StOK(e, rb) /\ Only({"cik"})
    [] e.op = "cseed" -> Same(e)
    [] e.op = "ksolve" -> KSolve(e)
    [] e.op = "support" -> Same(e) /\ Support(e)

TInit == i = 1 /\ rb = E0 /\ dik = E0 /\ com = E0 /\ gik = E0 /\ obj = E0 /\ hier = E0 /\ con = E0 /\ cik = E0
TNext == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
=============================================================================
