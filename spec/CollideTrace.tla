---------------------------- MODULE CollideTrace ----------------------------
(* Validation of collision and distance queries of the real library (C09).     *)
EXTENDS Collide, Common

(* boxes come as flat lists of 15 numbers *)
BoxesOf(l) == [k \in 1..(Len(l) \div 15) |-> LET o == 15*(k-1) IN
   [h0 |-> <<l[o+1], l[o+2], l[o+3]>>, h |-> <<l[o+1], l[o+2], l[o+3]>>, a |-> <<l[o+4],l[o+5],l[o+6],l[o+7],l[o+8],l[o+9],l[o+10],l[o+11],l[o+12]>>, c |-> <<l[o+13],l[o+14],l[o+15]>>]]
Is(what, v, r) == Chk(<<what, v, r>>, v = "either" \/ (v = "yes") = r)
Stay == UNCHANGED <<el, shp, sets, mgr>>
Keep(S) == [x \in DOMAIN shp \cap S |-> shp[x]]
Dropped == shp' = Keep(DOMAIN el')
PairsOf(k, a, l, b) == {<<Members(k, a), Members(l, b)>>}
Dist(e, P) == IF P = {} \/ (\E p \in P : p[1] = {} \/ p[2] = {}) THEN TRUE
              ELSE Chk(<<"distance", e.res.d, "expected", IF \A bd \in Boxes2(P) : Aligned(bd[1]) /\ Aligned(bd[2]) THEN MinOf({ Dist2(bd[1], bd[2]) : bd \in Boxes2(P) }) ELSE "?", e.res>>,
                       DistOK(P, e.res.d, e.w, e.res.p, e.res.q))

Step(e) ==
  CASE e.op = "reset" -> el' = E0 /\ shp' = C0 /\ sets' = C0 /\ mgr' = C0
    [] e.op = "newc" -> New(e.x, e.nm, e.p) /\ shp' = Put(shp, e.x, BoxesOf(e.m)) /\ UNCHANGED <<sets, mgr>>
    [] e.op = "newn" -> New(e.x, e.nm, e.p) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "cinfl" -> Inflate({e.x}, e.k) /\ UNCHANGED <<el, sets, mgr>>
    [] e.op = "rinfl" -> Inflate(RobotModels(e.r), e.k) /\ UNCHANGED <<el, sets, mgr>>
    [] e.op = "cflat" -> Chk("copied", e.ok) /\ New(e.y, e.nm, e.p) /\ shp' = Put(shp, e.y, shp[e.x]) /\ UNCHANGED <<sets, mgr>>
    [] e.op = "robot" -> /\ Chk("loaded", e.ok)
                         /\ Load(e.r, [n \in DOMAIN Fn(e.nodes) |-> With(e.nodes[n], "sens", E0)], Fn(e.par))
                         /\ shp' = Overlay(shp, [x \in { e.r \o "/" \o n : n \in DOMAIN Fn(e.boxes) } |->
                                      BoxesOf(e.boxes[CHOOSE n \in DOMAIN Fn(e.boxes) : e.r \o "/" \o n = x])])
                         /\ UNCHANGED <<sets, mgr>>
    [] e.op = "att" -> Eq("attached", AttachRes(e.p, e.x), e.ok /\ e.res) /\ Attach(e.p, e.x) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "det" -> Detach(e.p, e.x) /\ Dropped /\ UNCHANGED <<sets, mgr>>
    [] e.op = "move" -> Move(e.x, e.p) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "fq" -> SetJoint(e.x, e.v) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "rpose" -> MoveRobot(e.r, e.p) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "fupc" -> SetUpC(e.x, e.b) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "up" -> RefreshAll(e.x) /\ UNCHANGED <<shp, sets, mgr>>
    [] e.op = "oclonef" -> Chk("copied", e.ok) /\ Clone(e.x, e.y, e.nm) /\ shp' = (IF e.x \in DOMAIN shp THEN Put(shp, e.y, shp[e.x]) ELSE shp) /\ UNCHANGED <<sets, mgr>>
    [] e.op = "fatt" -> /\ Eq("attached as a node", CanFix(e.r, e.n, e.x), e.ok /\ e.res) /\ Fix(e.r, e.n, e.x, e.p)
                        /\ shp' = (IF CanFix(e.r, e.n, e.x) /\ e.x \in DOMAIN shp THEN Put(shp, e.r \o "/" \o el[e.x].nm, shp[e.x]) ELSE shp)
                        /\ UNCHANGED <<sets, mgr>>
    [] e.op = "cset" -> SetNew(e.s) /\ UNCHANGED <<el, shp, mgr>>
    [] e.op = "crns" -> sets' = Put(sets, e.s, [k \in 1..Len(e.ns) |-> e.r \o "/" \o e.ns[k]]) /\ UNCHANGED <<el, shp, mgr>>
    [] e.op = "csadd" -> Eq("added to the set", ~SetHas(e.s, e.x), e.res) /\ SetAdd(e.s, e.x) /\ UNCHANGED <<el, shp, mgr>>
    [] e.op = "csrem" -> Eq("removed from the set", SetHas(e.s, e.x), e.res) /\ SetRem(e.s, e.x) /\ UNCHANGED <<el, shp, mgr>>
    [] e.op = "csclone" -> sets' = Put(sets, e.t, sets[e.s]) /\ UNCHANGED <<el, shp, mgr>>
    [] e.op = "cc" -> Is(<<"collision", e.k, e.a, e.l, e.b>>, Verdict(Members(e.k, e.a), Members(e.l, e.b)), e.ok /\ e.res) /\ Stay
    [] e.op = "cd" -> Chk("answered", e.ok) /\ Dist(e, PairsOf(e.k, e.a, e.l, e.b)) /\ Stay
    [] e.op = "cpt" -> /\ LET S == Members(e.k, e.a)  pb == PointBox(e.v)
                              al == \A b \in Models(S) : Aligned(b)
                              sq == MinOf({ Dist2(b, pb) : b \in Models(S) })
                          IN Chk(<<"sphere", e.v, e.tol, "squared distance", IF al /\ S # {} THEN sq ELSE "?", e.res>>,
                                 IF S = {} THEN ~e.res ELSE ~al \/ ~Known(S) \/ sq = e.tol*e.tol \/ (e.res = (sq < e.tol*e.tol)))
                       /\ Stay
    [] e.op = "mnew" -> mgr' = Put(mgr, e.m, M0) /\ UNCHANGED <<el, shp, sets>>
    [] e.op = "madd" -> MAdd(e.m, e.k, e.x) /\ UNCHANGED <<el, shp, sets>>
    [] e.op = "mpair" -> MPair(e.m, e.k, e.x, e.l, e.y) /\ UNCHANGED <<el, shp, sets>>
    [] e.op = "mcol" -> Is("manager in collision", MVerdict(mgr[e.m]), e.res) /\ Stay
    [] e.op = "mcols" -> Is("set collides with the manager", MSetVerdict(mgr[e.m], e.s), e.res) /\ Stay
    [] e.op = "mdist" -> Chk("answered", e.ok)
                         /\ Dist(e, { <<RefModels(p[1]), RefModels(p[2])>> : p \in mgr[e.m].pairs }) /\ Stay
    [] e.op = "mdists" -> Chk("answered", e.ok)
                         /\ Dist(e, { <<RefModels(<<"s", e.s>>), RefModels(r)>> : r \in Others(mgr[e.m], e.s) }) /\ Stay
    [] e.op = "mhas" -> /\ Eq("set listed", \E j \in 1..Len(mgr[e.m].models) : mgr[e.m].models[j] = <<"s", e.s>>, e.res.has)
                        /\ Eq("number of models", Len(mgr[e.m].models), e.res.n) /\ Stay
    [] e.op = "mhaso" -> Eq("object listed", \E j \in 1..Len(mgr[e.m].models) : Content(mgr[e.m].models[j]) = <<e.x>>, e.res) /\ Stay

TInit == i = 1 /\ el = E0 /\ shp = C0 /\ sets = C0 /\ mgr = C0
TNext == /\ i <= Len(Log)
         /\ Step(Log[i])
         /\ i' = i + 1
=============================================================================
