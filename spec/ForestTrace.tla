----------------------------- MODULE ForestTrace -----------------------------
(* Validation of histories of the real library against Forest.tla (C03).       *)
EXTENDS Forest, Common

ElOK(x, o) ==
  LET n == el'[x] IN
  /\ Eq(<<"parent", x>>, n.par, o.par)
  /\ Eq(<<"children", x>>, <<n.ch, Cardinality(n.ch)>>, <<ToSet_(o.ch), Len(o.ch)>>)
  /\ Eq(<<"name", x>>, n.nm, o.nm)
  /\ Eq(<<"has a parent", x>>, n.par # "" /\ (n.k = "node" => el'[n.par].k # "robot"), o.hp)
  /\ Chk(<<"global pose", x, n.gp, o.gp>>, Agrees(n.gp, o.gp))
  /\ n.k = "obj" => /\ Chk(<<"visualization pose", x, n.vp, o.vp>>, Agrees(n.vp, o.vp))
                    /\ Chk(<<"collision model pose", x, n.cp, o.cp>>, Agrees(n.cp, o.cp))
StateOK(e) == LET o == Fn(e.el) IN
  /\ Eq("living elements", DOMAIN el', DOMAIN o)
  /\ \A x \in DOMAIN el' : ElOK(x, o[x])

Kin(e) ==
  LET r == e.r  ns == Fn(e.res)
      of(x) == IF \E m \in DOMAIN ns : r \o "/" \o m = x THEN CHOOSE m \in DOMAIN ns : r \o "/" \o m = x ELSE ""
  IN Load(r, ns, [n \in DOMAIN ns |-> of(Fn(e.el)[r \o "/" \o n].par)])

FrameOK(e) ==
  LET gx == el[e.x].gp  gy == el[e.y].gp  p == e.p  v == <<p[10], p[11], p[12]>>
      to == Mul(Inv(gx), gy)
      is(what, m, o) == Chk(<<what, m, o>>, Agrees(m, o))
      vec(what, m, o) == Chk(<<what, m, o>>, m = Unknown \/ Pos(m) = o)
  IN /\ is("to the global frame", Mul(gx, p), e.res.tg) /\ is("to the local frame", Mul(Inv(gx), p), e.res.tl)
     /\ is("transformation to", to, e.res.tf) /\ is("transformation from", Mul(Inv(gy), gx), e.res.ff)
     /\ is("transformed pose", Mul(to, p), e.res.to)
     /\ vec("position in the global frame", Mul(gx, Trans(v)), e.res.vg) /\ vec("position in the local frame", Mul(Inv(gx), Trans(v)), e.res.vl)
     /\ vec("transformed position", Mul(to, Trans(v)), e.res.vo)

Step(e) ==
  CASE e.op = "reset" -> el' = E0
    [] e.op = "forest" -> UNCHANGED el
    [] e.op = "robot" -> Chk("loaded", e.ok) /\ Kin(e)
    [] e.op = "new" -> New(e.x, e.nm, e.p)
    [] e.op = "att" -> Eq("attached", AttachRes(e.p, e.x), e.ok /\ e.res) /\ Attach(e.p, e.x)
    [] e.op = "det" -> Detach(e.p, e.x)
    [] e.op = "move" -> Move(e.x, e.p)
    [] e.op = "up" -> RefreshAll(e.x)
    [] e.op = "fq" -> SetJoint(e.x, e.v)
    [] e.op = "rpose" -> MoveRobot(e.r, e.p)
    [] e.op = "drop" -> Drop(e.x)
    [] e.op = "oclonef" -> Chk("copied", e.ok) /\ Clone(e.x, e.y, e.nm)
    [] e.op = "fname" -> Rename(e.x, e.nm)
    [] e.op = "fatt" -> Eq("attached as a node", CanFix(e.r, e.n, e.x), e.ok /\ e.res) /\ Fix(e.r, e.n, e.x, e.p)
    [] e.op = "fdet" -> Eq("detached", CanUnfix(e.r, e.x), e.ok /\ e.res) /\ Unfix(e.r, e.x)
    [] e.op = "fupv" -> SetUpV(e.x, e.b)
    [] e.op = "fupc" -> SetUpC(e.x, e.b)
    [] e.op = "robdel" -> Delete(e.r)
    [] e.op = "hasch" -> Eq("is a child", HasChild(el, e.p, e.x, e.b), e.res) /\ UNCHANGED el
    [] e.op = "haschn" -> Eq("has a child of that name", HasChildNamed(el, e.p, e.nm, e.b), e.res) /\ UNCHANGED el
    [] e.op = "nodes" -> Eq("nodes of the robot", { el[x].nm : x \in { y \in Ids : el[y].k = "node" /\ el[y].rob = e.r /\ y \in Below(el, e.r) } }, ToSet_(e.res)) /\ UNCHANGED el
    [] e.op = "frames" -> FrameOK(e) /\ UNCHANGED el

TInit == i = 1 /\ el = E0
TNext == /\ i <= Len(Log)
         /\ LET e == Log[i] IN Step(e) /\ (Has(e, "el") => Holds(StateOK(e)))
         /\ i' = i + 1
=============================================================================
