------------------------------ MODULE RobotFile ------------------------------
(* What loading a robot description means: the content of the file as declared *)
(* (with its units) mapped to the robot of Robots.tla, and what storing a      *)
(* robot keeps.                                                                *)
EXTENDS Robots, Common

Bool2(b) == IF b THEN TRUE ELSE FALSE
IsM(u) == u \in {"m", "meter"}
IsMM(u) == u \in {"mm", "millimeter"}
Len_(v, u) == IF IsM(u) THEN v * 1000 ELSE v            \* default and mm: millimetres

TfElem(e) ==
  CASE e.k = "trans" -> Trans(<<Len_(e.v[1], e.u), Len_(e.v[2], e.u), Len_(e.v[3], e.u)>>)
    [] e.k = "rpy"   -> Mul(Rot(<<0,0,1>>, e.v[3]), Mul(Rot(<<0,1,0>>, e.v[2]), Rot(<<1,0,0>>, e.v[1])))
    [] e.k = "mat"   -> SetPos(e.v, <<Len_(e.v[10], e.u), Len_(e.v[11], e.u), Len_(e.v[12], e.u)>>)
    [] e.k = "mat3"  -> e.v
    [] e.k = "quat"  -> Rot(<<e.v[1], e.v[2], e.v[3]>>, e.v[4])
    [] e.k = "dh"    -> Mul(Mul(Rot(<<0,0,1>>, e.v[4]), Trans(<<0, 0, Len_(e.v[2], e.u)>>)),
                            Mul(Trans(<<Len_(e.v[1], e.u), 0, 0>>), Rot(<<1,0,0>>, e.v[3])))
RECURSIVE TfSeq(_, _)
TfSeq(tf, k) == IF k > Len(tf) THEN IdPose ELSE Mul(TfElem(tf[k]), TfSeq(tf, k+1))

(* limits *)
LimDef(nd) == Has(nd.lim, "u") /\ nd.lim.u # "none"
LenLim(nd) == IsM(nd.lim.u) \/ IsMM(nd.lim.u)
RawLo(nd) == IF ~LimDef(nd) THEN -180 ELSE IF Has(nd.lim, "lo") THEN Len_(nd.lim.lo, nd.lim.u) ELSE IF LenLim(nd) THEN -1000 ELSE -180
RawHi(nd) == IF ~LimDef(nd) THEN 180 ELSE IF Has(nd.lim, "hi") THEN Len_(nd.lim.hi, nd.lim.u) ELSE IF LenLim(nd) THEN 1000 ELSE 180
Full_(nd) == nd.free /\ RawHi(nd) - RawLo(nd) # 360
Lo(nd) == IF Full_(nd) THEN -180 ELSE RawLo(nd)
Hi(nd) == IF Full_(nd) THEN 180 ELSE RawHi(nd)

(* rates in thousandths of the internal unit (m or rad per second) *)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k-1)
TimeDiv(ut, k) == CASE ut \in {"min", "minute"} -> Pow(60, k) [] ut \in {"h", "hour"} -> Pow(3600, k) [] OTHER -> 1
Rate(d, k) ==
  IF d.v = -1 THEN -1000 ELSE
  LET perSec == (d.v * 1000) \div TimeDiv(d.ut, k)
      l == IF IsMM(d.ul) THEN perSec \div 1000 ELSE perSec
  IN IF d.ua \in {"deg", "degree"} THEN (l * 1745) \div 100000 ELSE l
Torque(d) == IF d.v = -1 THEN -1000 ELSE IF IsMM(d.ul) THEN d.v ELSE d.v * 1000

(* physics: mass in grams *)
Mass(p) == CASE p.um \in {"g", "gram"} -> p.mass [] p.um \in {"t", "ton"} -> p.mass * 1000000 [] OTHER -> p.mass * 1000
InertiaGiven(p) ==
  LET w(x) == CASE p.uw = "g" -> x \div 1000 [] p.uw = "t" -> x * 1000 [] OTHER -> x
  IN [k \in 1..9 |-> IF IsMM(p.uil) THEN w(p.in[k] \div 1000) ELSE w(p.in[k] * 1000)]
Diag(a, b, c) == <<a, 0, 0, 0, b, 0, 0, 0, c>>
BoxPart(a, b, mg) == (((a*a + b*b) \div 100) * mg + 60000) \div 120000
(* the mass distributed over the bounding box of the model *)
InertiaAuto(mg, box) ==
  IF mg = 0 THEN Diag(1000, 1000, 1000)
  ELSE IF box = <<>> THEN Diag(mg \div 100, mg \div 100, mg \div 100)
  ELSE Diag(BoxPart(box[2], box[3], mg), BoxPart(box[1], box[3], mg), BoxPart(box[1], box[2], mg))
SimName(s) == CASE s = "static" -> "Static" [] s \in {"dynamic", "dynamics"} -> "Dynamic" [] s = "kinematic" -> "Kinematic" [] OTHER -> "Unknown"
PhysOf(p, box) ==
  IF ~p.def THEN [m |-> 0, com |-> <<0,0,0>>, in |-> Diag(1000,1000,1000), sim |-> "Unknown", fr |-> -1000, ign |-> <<>>]
  ELSE [m |-> Mass(p), com |-> IF p.comdef THEN <<Len_(p.com[1], p.ul), Len_(p.com[2], p.ul), Len_(p.com[3], p.ul)>> ELSE <<0,0,0>>,
        in |-> IF p.in = <<>> THEN InertiaAuto(Mass(p), box) ELSE InertiaGiven(p),
        sim |-> SimName(p.sim), fr |-> p.fr, ign |-> p.ign]

(* mode: 0 full, 2 collision models only, 3 structure only *)
NodeOf(nd, mode) ==
  LET jt == nd.jt
      move == jt \in {"revolute", "prismatic"}
      vis == nd.vis # "" /\ mode = 0
      col == nd.col # "" /\ mode # 3
      box == IF vis \/ col THEN nd.box ELSE <<>>
  IN [par |-> nd.par, typ |-> CASE jt = "revolute" -> "rev" [] jt = "prismatic" -> "pris" [] OTHER -> "fixed",
      ax |-> IF move THEN nd.ax ELSE <<0,0,0>>,
      lo |-> IF move THEN Lo(nd) ELSE 0, hi |-> IF move THEN Hi(nd) ELSE 0, lim2 |-> TRUE,
      free |-> nd.free, enf |-> TRUE, off |-> IF move THEN nd.off ELSE 0,
      loc |-> TfSeq(nd.tf, 1),
      va |-> <<Rate(nd.vel, 1), Rate(nd.acc, 2), Torque(nd.tor)>>,
      ph |-> PhysOf(nd.ph, box),
      sens |-> [s \in DOMAIN Fn(nd.sens) |-> TfSeq(nd.sens[s], 1)],
      vis |-> vis, col |-> col]

ModeNr(c) == CASE c = "None" -> 0 [] c = "Actors" -> 1 [] c = "Static" -> 2 [] OTHER -> 3
FnFn(m) == [k \in DOMAIN m \ {"_"} |-> Fn(m[k])]
EefOf(e, q) ==
  LET tcp == IF e.tcp = "" THEN e.base ELSE e.tcp IN
  [base |-> e.base, tcp |-> tcp, gcp |-> IF e.gcp = "" THEN tcp ELSE e.gcp,
   stat |-> e.stat,
   act |-> [a \in DOMAIN Fn(e.act) |-> [k \in 1..Len(e.act[a]) |-> <<e.act[a][k][1], IF e.act[a][k][2] = 0 THEN 1000 ELSE e.act[a][k][2] * 1000, ModeNr(e.act[a][k][3])>>]],
   pre |-> [p \in DOMAIN Fn(e.pre) |-> Fn(e.pre[p])], ptcp |-> Fn(e.ptcp)]

(* the tree with the nodes of d, plus the robots included below some nodes *)
RECURSIVE DescNodes(_, _)
DescNodes(d, mode) ==
  LET own == [n \in DOMAIN d.nodes |-> NodeOf(d.nodes[n], mode)]
      Inc(k) == LET s == d.inc[k]  m == DescNodes(s.desc, mode)
                IN [n \in DOMAIN m |-> IF n = s.desc.root THEN [m[n] EXCEPT !.par = s.at] ELSE m[n]]
      F_(a, k) == Inc(k) @@ a
  IN FoldLeft(F_, own, [k \in 1..Len(d.inc) |-> k])
RECURSIVE DescProp(_)
DescProp(d) ==
  LET own == [n \in { x \in DOMAIN d.nodes : DOMAIN Fn(d.nodes[x].prop) # {} } |-> Fn(d.nodes[n].prop)]
      F_(a, k) == DescProp(d.inc[k].desc) @@ a
  IN FoldLeft(F_, own, [k \in 1..Len(d.inc) |-> k])
RECURSIVE DescInit(_)
DescInit(d) ==
  LET own == [n \in DOMAIN d.nodes |-> IF d.nodes[n].jt \in {"revolute", "prismatic"} THEN Clamp(Lo(d.nodes[n]), Hi(d.nodes[n]), d.nodes[n].init) ELSE 0]
      F_(a, k) == DescInit(d.inc[k].desc) @@ a
  IN FoldLeft(F_, own, [k \in 1..Len(d.inc) |-> k])

(* node sets refer to the tree t; r0 is a robot with these nodes *)
SetOf(r0, root, s) ==
  LET k0 == IF s.root = "" THEN root ELSE s.root IN
  [nodes |-> s.nodes, root |-> IF \A k \in 1..Len(s.nodes) : s.nodes[k] \in Sub(r0, k0) THEN k0 ELSE root,
   tcp |-> IF s.tcp = "" THEN s.nodes[Len(s.nodes)] ELSE s.tcp, chain |-> IsChain(r0, s.nodes)]
RECURSIVE DescSets(_, _, _)
DescSets(d, r0, root) ==
  LET own == [s \in DOMAIN Fn(d.rns) |-> SetOf(r0, root, d.rns[s])]
      Inc(k) == LET sub == d.inc[k].desc
                    m == DescSets(sub, [st |-> [nodes |-> DescNodes(sub, 0)]], sub.root)     \* as in the included robot
                IN [s \in DOMAIN m |-> [m[s] EXCEPT !.root = IF \A j \in 1..Len(m[s].nodes) : m[s].nodes[j] \in Sub(r0, m[s].root) THEN m[s].root ELSE root]]
      F_(a, k) == Inc(k) @@ a
  IN FoldLeft(F_, own, [k \in 1..Len(d.inc) |-> k])
RECURSIVE DescEefs(_)
DescEefs(d) ==
  LET own == [s \in DOMAIN Fn(d.eef) |-> EefOf(d.eef[s], 0)]
      F_(a, k) == IF d.inc[k].eef THEN DescEefs(d.inc[k].desc) @@ a ELSE a
  IN FoldLeft(F_, own, [k \in 1..Len(d.inc) |-> k])

LoadedRobot(d, mode, name) ==
  LET nodes == DescNodes(d, mode)
      r0 == [st |-> [nodes |-> nodes]]
      st == [name |-> name, type |-> d.type, root |-> d.root, scal |-> 1000, nodes |-> nodes,
             rns |-> DescSets(d, r0, d.root), eef |-> DescEefs(d), closed |-> TRUE]
  IN NewRobot(st, DescProp(d), DescInit(d), IdPose)

(* storing a robot and loading the result *)
StoredRobot(r, name, storeEef, storeSets, storeSens) ==
  LET nodes == [n \in Nodes(r) |-> [N(r, n) EXCEPT !.enf = TRUE, !.sens = IF storeSens THEN @ ELSE [x \in {} |-> 0]]]
      st == [r.st EXCEPT !.name = name, !.scal = 1000, !.nodes = nodes,
                         !.rns = IF storeSets THEN [s \in { x \in DOMAIN r.st.rns : r.st.rns[x].nodes # <<>> } |-> [r.st.rns[s] EXCEPT !.tcp = @]] ELSE [x \in {} |-> 0],
                         !.eef = IF storeEef THEN r.st.eef ELSE [x \in {} |-> 0]]
      q0 == [n \in Nodes(r) |-> IF IsJoint(r, n) THEN Clamp(nodes[n].lo, nodes[n].hi, 0) ELSE 0]
  IN NewRobot(st, r.prop, q0, IdPose)

(* comparison of node data: rates and inertia are rounded *)
Near(a, b) == Abs_(a - b) <= 1 + Abs_(a) \div 500
NearSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k])
NodeDataOK(what, a, b) ==
  /\ \A f \in {"par", "typ", "ax", "lo", "hi", "lim2", "free", "enf", "off", "loc", "sens", "vis", "col"} :
       Eq(Append(what, f), IF f = "sens" THEN Fn(a[f]) ELSE a[f], IF f = "sens" THEN Fn(b[f]) ELSE b[f])
  /\ Chk(<<what, "maximal velocity, acceleration, torque", a.va, b.va>>, NearSeq(a.va, b.va))
  /\ \A f \in {"com", "sim", "fr", "ign"} : Eq(Append(what, f), a.ph[f], b.ph[f])
  /\ Chk(<<what, "mass", a.ph.m, b.ph.m>>, Near(a.ph.m, b.ph.m))
  /\ Chk(<<what, "inertia", a.ph.in, b.ph.in>>, NearSeq(a.ph.in, b.ph.in))
=============================================================================
