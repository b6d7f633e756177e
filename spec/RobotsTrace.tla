---------------------------- MODULE RobotsTrace ----------------------------
(* Validation of histories of the real library against Robots.tla.             *)
EXTENDS Restructure

VARIABLES cfg,       \* robot configurations: id -> [rob, m, tcp]
          setsX      \* node sets known to the test only (not registered): "robot/name" -> set

tvars == <<rob, cfg, setsX, i>>

----------------------------------------------------------------------------
(* adopting an observed robot *)
DynQ(d) == [n \in DOMAIN d.n |-> d.n[n].q]
Adopt(full, d, prop) == NewRobot([full EXCEPT !.rns = Fn(full.rns), !.eef = Fn(full.eef)], prop, DynQ(d), d.pose)
PropOf(e) == IF Has(e, "prop") THEN [n \in DOMAIN Fn(e.prop) |-> Fn(e.prop[n])] ELSE [x \in {} |-> 0]

----------------------------------------------------------------------------
(* comparing the model with the projected state *)
NodeOK(r, id, n, o) ==
  LET nd == N(r, n) IN
  /\ F({"C01","C02","C04","C05","C07","C08","C20"}) =>
       Chk(<<"joint value", id, n, r.q[n], o.q>>, SameAngle(nd, r.q[n], o.q) /\ (nd.free => nd.lo <= o.q /\ o.q <= nd.hi))
  /\ F({"C01","C04","C05","C20"}) =>
       /\ r.ok[n] => Chk(<<"kinematic equation", id, n, o.r>>, o.r = 0)
       /\ r.ok[n] => Chk(<<"global pose", id, n, r.gp[n], o.p>>, Agrees(r.gp[n], o.p))
       /\ Chk(<<"pose in root frame", id, n, o.rr>>, o.rr = 0)
       /\ Chk(<<"sensor pose", id, n, o.sr>>, o.sr = 0)
       /\ r.vf[n] => Chk(<<"visualization pose", id, n, o.vr>>, o.vr = 0)
       /\ r.cf[n] => Chk(<<"collision model pose", id, n, o.cr>>, o.cr = 0)

RobotOK(id, r, d) ==
  /\ Eq(<<"nodes", id>>, Nodes(r), DOMAIN d.n)
  /\ F({"C01","C04","C20"}) => Chk(<<"robot pose", id, r.pose, d.pose>>, Agrees(r.pose, d.pose))
  /\ \A n \in Nodes(r) : NodeOK(r, id, n, d.n[n])

StateOK(e) ==
  Has(e, "st") => LET st == Fn(e.st) IN
    /\ Eq("robots", DOMAIN rob', DOMAIN st)
    /\ \A id \in DOMAIN rob' : RobotOK(id, rob'[id], st[id])

RestructOK(what, a, b) ==
  /\ \A f \in {"par", "typ", "ax", "lo", "hi", "free", "off", "loc", "sens", "vis", "col"} :
       Chk(<<what, f, a[f], b[f]>>, IF f = "loc" THEN Agrees(a.loc, b.loc) ELSE IF f = "sens" THEN DOMAIN Fn(a.sens) = DOMAIN Fn(b.sens) /\ \A s \in DOMAIN Fn(a.sens) : Agrees(a.sens[s], b.sens[s]) ELSE a[f] = b[f])
  /\ Chk(<<what, "maximal velocity, acceleration, torque", a.va, b.va>>, NearSeq(a.va, b.va))
  /\ Chk(<<what, "mass", a.ph.m, b.ph.m>>, Near(a.ph.m, b.ph.m))
  /\ Chk(<<what, "com", a.ph.com, b.ph.com>>, a.ph.m = 0 \/ a.ph.com = Unknown \/ \A k \in 1..3 : Abs_(a.ph.com[k] - b.ph.com[k]) <= 1 \/ b.ph.com[k] = Bad)
EefPart(x, f) == CASE f = "pre" -> FnFn(x[f]) [] f \in {"act", "ptcp"} -> Fn(x[f]) [] OTHER -> x[f]
(* the static part is compared whenever it was recorded *)
StaticOK(e) ==
  Has(e, "full") => LET fu == Fn(e.full) IN
    \A id \in DOMAIN rob' :
      LET o == fu[id]  s == rob'[id].st IN
      /\ F({"C02","C04","C20"}) =>
           /\ \A n \in DOMAIN s.nodes : Chk(<<"limits", id, n>>, o.nodes[n].lim2 /\ s.nodes[n].lo = o.nodes[n].lo /\ s.nodes[n].hi = o.nodes[n].hi
                                               /\ s.nodes[n].free = o.nodes[n].free /\ s.nodes[n].enf = o.nodes[n].enf)
      /\ F({"C04","C05"}) =>
           /\ \A n \in DOMAIN s.nodes : NodeDataOK(<<"node data", id, n>>, s.nodes[n], o.nodes[n])
           /\ Eq(<<"end effectors", id>>, DOMAIN s.eef, DOMAIN Fn(o.eef))
           /\ \A x \in DOMAIN s.eef : \A f \in {"base", "tcp", "gcp", "stat", "act", "pre", "ptcp"} :
                Eq(<<"end effector", id, x, f>>, EefPart(s.eef[x], f), EefPart(o.eef[x], f))
           /\ Chk(<<"elements of the robot belong to it", id>>, o.closed)
      /\ F({"C20"}) =>
           /\ Eq(<<"nodes", id>>, DOMAIN s.nodes, DOMAIN o.nodes)
           /\ \A n \in DOMAIN s.nodes : RestructOK(<<"node data", id, n>>, s.nodes[n], o.nodes[n])
           /\ Eq(<<"end effectors", id>>, DOMAIN s.eef, DOMAIN Fn(o.eef))
           /\ Eq(<<"type root", id>>, <<s.type, s.root>>, <<o.type, o.root>>)
           /\ Chk(<<"elements of the robot belong to it", id>>, o.closed)
      /\ F({"C04","C05","C08","C20"}) => Eq(<<"node sets", id>>, s.rns, Fn(o.rns))
      /\ F({"C04","C05"}) => Eq(<<"name type root", id>>, <<s.name, s.type, s.root>>, <<o.name, o.type, o.root>>)
      /\ (F({"C04"}) /\ s.scal >= 0) => Eq(<<"scaling", id>>, s.scal, o.scal)

CfgOK(e) ==
  Has(e, "cfg") => LET c == Fn(e.cfg) IN
    F({"C07"}) =>
    /\ Eq("configurations", DOMAIN cfg', DOMAIN c)
    /\ \A k \in DOMAIN cfg' :
         /\ Eq(<<"configuration", k>>, cfg'[k].m, Fn(c[k].m))
         /\ Eq(<<"configuration tcp", k>>, <<cfg'[k].tcp, cfg'[k].tcp # "">>, <<c[k].tcp, c[k].hastcp>>)
         /\ Eq(<<"configuration robot, size", k>>, <<cfg'[k].rname, Cardinality(DOMAIN cfg'[k].m)>>, <<c[k].rob, c[k].nn>>)

----------------------------------------------------------------------------
(* copies *)
(* A copy has the same nodes etc. below start; scal is the scaling factor in per mille *)
ScaleI(x, sc) == (x * sc) \div 1000
ScaleP(p, sc) == IF p = Unknown THEN p ELSE SetPos(p, <<ScaleI(p[10], sc), ScaleI(p[11], sc), ScaleI(p[12], sc)>>)
CopyNode(nd, sc) == [nd EXCEPT !.loc = ScaleP(nd.loc, sc),
                               !.sens = [s \in DOMAIN nd.sens |-> IF s = "_" THEN 0 ELSE ScaleP(nd.sens[s], sc)],
                               !.ph.com = <<ScaleI(nd.ph.com[1], sc), ScaleI(nd.ph.com[2], sc), ScaleI(nd.ph.com[3], sc)>>]
EefNodes(e) == {e.base, e.tcp, e.gcp} \cup ToSet_(e.stat)
               \cup UNION { { e.act[a][k][1] : k \in 1..Len(e.act[a]) } : a \in DOMAIN e.act \ {"_"} }
SetWithin(s, T) == ToSet_(s.nodes) \cup {s.tcp, s.root} \subseteq T
CopyStatic(r, id, type, start, T, sc, sets, eefs) ==
  LET st == r.st IN
  [st EXCEPT !.name = id, !.type = type, !.root = start, !.scal = IF st.scal = 1000 THEN sc ELSE -1,
     !.nodes = [n \in T |-> IF n = start THEN [CopyNode(N(r, n), sc) EXCEPT !.par = ""] ELSE CopyNode(N(r, n), sc)],
     !.rns = IF ~sets THEN [x \in {} |-> 0]
             ELSE [x \in { y \in DOMAIN st.rns : SetWithin(st.rns[y], T) } |-> st.rns[x]],
     !.eef = IF ~eefs THEN [x \in {} |-> 0] ELSE [x \in { y \in DOMAIN st.eef : EefNodes(st.eef[y]) \subseteq T } |->
               LET tc == Fn(st.eef[x].ptcp)  pre == Fn(st.eef[x].pre) IN
               [st.eef[x] EXCEPT !.ptcp = [p \in DOMAIN tc |-> IF tc[p] \in T THEN tc[p] ELSE ""],
                                 !.pre = [p \in DOMAIN pre |-> LET m == Fn(pre[p]) IN [n \in DOMAIN m \cap T |-> m[n]]]]]]
CopyRobot(r, st, T, pose) ==
  LET c == NewRobot(st, [n \in DOMAIN r.prop \cap T |-> r.prop[n]], [n \in T |-> Store(st.nodes[n], r.q[n])], pose)
      v == [n \in T |-> r.uv[n]]      \* a copied visualization keeps its switch
  IN [c EXCEPT !.uv = v, !.vf = v]

(* The copied part takes the joint values of the original (within the current  *)
(* limits); a driven joint follows its driver as in any update.                *)

----------------------------------------------------------------------------
(* node sets *)
SetKey(id, s) == id \o "/" \o s
GetSet(id, s) == IF SetKey(id, s) \in DOMAIN setsX THEN setsX[SetKey(id, s)] ELSE rob[id].st.rns[s]
HasSet(id, s) == SetKey(id, s) \in DOMAIN setsX \/ s \in DOMAIN rob[id].st.rns
CoversAll(r, root, nodes) == \A k \in 1..Len(nodes) : nodes[k] \in Sub(r, root)
NewSet(r, nodes, root, tcp, byname) ==
  LET r0 == IF root # "-" THEN root ELSE IF byname /\ nodes # <<>> THEN nodes[1] ELSE r.st.root
      t  == IF tcp # "-" THEN tcp ELSE nodes[Len(nodes)]
  IN [nodes |-> nodes, root |-> IF CoversAll(r, r0, nodes) THEN r0 ELSE r.st.root, tcp |-> t,
      chain |-> Len(nodes) > 0 /\ IsChain(r, nodes)]
SetInfoOK(r, s, o) ==
  F({"C08"}) =>
  /\ Eq("node set", <<s.nodes, s.root, s.tcp, Len(s.nodes)>>, <<o.nodes, o.root, o.tcp, o.size>>)
  /\ Eq("members", s.nodes, o.names) /\ Eq("members by index", s.nodes, o.at)
  /\ Eq("membership", ToSet_(s.nodes), ToSet_(o.has)) /\ Eq("membership by name", ToSet_(s.nodes), ToSet_(o.hasn))
  /\ Chk("index out of range is refused", o.oob)
  /\ s.nodes # <<>> => Eq("is a kinematic chain", IsChain(r, s.nodes), o.chain)
  /\ Chk("robot of the set", o.rob)

----------------------------------------------------------------------------
Known(r, m) == [n \in DOMAIN m \cap Nodes(r) |-> m[n]]
Keep(e) == UNCHANGED <<cfg, setsX>>
RefusedIf(c, e, act) == IF c THEN Chk("refused", ~e.ok) /\ UNCHANGED <<rob, cfg, setsX>> ELSE Chk("accepted", e.ok) /\ act

SetLen(id, s) == Len(GetSet(id, s).nodes)
Interp(a, b, t) == [k \in 1..Len(a) |-> a[k] + ((b[k] - a[k]) * t) \div 4]

Moves(e) ==
  LET r == rob[e.r] IN
  CASE e.op \in {"q","qr","qn"} -> RefusedIf(e.n \notin Nodes(r), e, SetJoint(e.r, e.n, e.v) /\ Keep(e))
    [] e.op = "qnou"  -> SetJointNoUpdate(e.r, e.n, e.v) /\ Keep(e)
    [] e.op = "apply" -> Apply_(e.r) /\ Keep(e)
    [] e.op = "qmap"  -> SetMany(e.r, Known(r, Fn(e.m))) /\ Keep(e)
    [] e.op = "qcfg"  -> SetMany(e.r, Known(r, Fn(e.m))) /\ Keep(e)
    [] e.op = "qset"  -> LET s == GetSet(e.r, e.s) IN
                         RefusedIf(Len(s.nodes) # Len(e.vs), e, SetThroughSet(e.r, s.nodes, s.root, e.vs) /\ Keep(e))
    [] e.op = "qcfgset" -> LET s == GetSet(e.r, e.s)
                               m == Restrict_(Fn(e.m), ToSet_(s.nodes)) IN
                           Put(e.r, Update(Write(r, m), Sub(r, s.root))) /\ Keep(e)
    [] e.op = "qtraj" -> LET s == GetSet(e.r, e.s) IN
                         SetThroughSet(e.r, s.nodes, s.root, Interp(e.a, e.b, e.t)) /\ Keep(e)
    [] e.op \in {"pose","poseb"} -> SetPose(e.r, e.p) /\ Keep(e)
    [] e.op = "poseno" -> SetPoseNoApply(e.r, e.p) /\ Keep(e)
    [] e.op = "posenode" -> /\ (AllOk(r) /\ F({"C01"})) => Chk(<<"node placed at the given pose", e.res>>, e.res = 0)
                            /\ PlaceNode(e.r, e.n, e.p) /\ Keep(e)
    [] e.op = "posnode" -> /\ (AllOk(r) /\ F({"C01"})) => Chk(<<"node placed at the given position", e.res>>, e.res = 0)
                           /\ PlaceNodePos(e.r, e.n, e.v3) /\ Keep(e)
    [] e.op = "upv" -> SetUpdateVis(e.r, e.b) /\ Keep(e)
    [] e.op = "upc" -> SetUpdateCol(e.r, e.b) /\ Keep(e)
    [] e.op = "upvn" -> SetNodeUpdateVis(e.r, e.n, e.b) /\ Keep(e)
    [] e.op = "limits" -> SetLimits(e.r, e.n, e.lo, e.hi) /\ Keep(e)
    [] e.op = "limitless" -> SetLimitless(e.r, e.n, e.b) /\ Keep(e)
    [] e.op = "enforce" -> SetEnforce(e.r, e.n, e.b) /\ Keep(e)
    [] e.op = "prop" -> SetProp(e.r, e.n, e.t, e.f) /\ Keep(e)
    [] e.op = "dyn" -> SetDyn(e.r, e.n, <<e.va, e.vb, e.vc>>) /\ Keep(e)
    [] e.op = "mass" -> Put(e.r, [r EXCEPT !.st.nodes[e.n].ph.m = e.v]) /\ Keep(e)
    [] e.op = "loc" -> SetLoc(e.r, e.n, e.p) /\ Keep(e)

Queries(e) ==
  LET r == rob[e.r] IN
  /\ UNCHANGED <<rob, cfg, setsX>>
  /\ CASE e.op = "delta" -> F({"C02"}) => LET d == Delta(r, e.n, e.v) IN
                            Chk(<<"shortest difference", d, e.res>>, e.res = d \/ (N(r, e.n).free /\ Abs_(d) = 180 /\ e.res = -d))
       [] e.op = "inlim" -> F({"C02"}) => Eq("value within limits", InLimits(r, e.n, e.v), e.res)
       [] e.op = "resp" -> F({"C02"}) => Eq("value cut to limits", Respect(r, e.n, e.v), e.res)
       [] e.op = "frames" -> F({"C01"}) => Chk(<<"frame transformation", e.res>>, e.res = 0)
       [] e.op = "com" -> F({"C01","C04","C20"}) => Chk(<<"centre of mass", e.res>>, e.res.bad = 0)
       [] e.op = "nsinfo" -> SetInfoOK(r, GetSet(e.r, e.s), e.res)
       [] e.op = "nsget" -> F({"C08"}) => LET s == GetSet(e.r, e.s) IN
              /\ Chk("all readers agree", e.res.same)
              /\ Eq("number of values", Len(s.nodes), Len(e.res.v))
              /\ \A k \in 1..Len(s.nodes) : Chk(<<"value", k>>, SameAngle(N(r, s.nodes[k]), r.q[s.nodes[k]], e.res.v[k]))
       [] e.op = "nslim" -> F({"C08"}) => LET s == GetSet(e.r, e.s) IN
              IF Len(s.nodes) # Len(e.vs) THEN Chk("refused", ~e.ok)
              ELSE LET in == \A k \in 1..Len(s.nodes) : InLimits(r, s.nodes[k], e.vs[k])
                       cut == [k \in 1..Len(s.nodes) |-> Respect(r, s.nodes[k], e.vs[k])]
                   IN Eq("limits of a set", [in |-> in, in2 |-> in, resp |-> cut, resp2 |-> cut], e.res)
       [] e.op = "nsmut" -> F({"C08"}) => Eq("a node set is immutable", FALSE, e.res)
       [] e.op = "nssuff" -> F({"C08"}) => LET s == GetSet(e.r, e.s) IN
              Eq("nodes suffice", ToSet_(s.nodes) \cup {s.tcp, s.root} \subseteq ToSet_(e.ns), e.res)
       [] e.op = "nslist" -> F({"C08","C04"}) =>
              /\ Eq("registered node sets", DOMAIN r.st.rns, ToSet_(e.res.all))
              /\ Eq("node sets found by name", DOMAIN r.st.rns \cap ToSet_(e.ns), ToSet_(e.res.found))
       [] e.op = "tree" -> F({"C08","C04"}) => \A n \in Nodes(r) : LET o == e.res[n] IN
              /\ Eq(<<"ancestors", n>>, { m \in Nodes(r) : IsAncestor(r, m, n) }, ToSet_(o.up))
              /\ Eq(<<"subtree", n>>, Sub(r, n), ToSet_(o.down))
              /\ Eq(<<"children", n>>, Children(r, n), ToSet_(o.kids))
              /\ Eq(<<"descendants", n>>, Sub(r, n) \ {n}, ToSet_(o.desc))
       [] e.op = "full" -> TRUE

NodeSets(e) ==
  LET r == rob[e.r] IN
  CASE e.op = "nsnew" ->
         LET bad == \/ e.ns = <<>> \/ \E k \in 1..Len(e.ns) : e.ns[k] \notin Nodes(r)
                    \/ (e.root # "-" /\ e.root \notin Nodes(r) /\ e.how = 0) \/ (e.tcp # "-" /\ e.tcp \notin Nodes(r) /\ e.how = 0)
                    \/ (e.reg /\ e.s \in DOMAIN r.st.rns)
             s == NewSet(r, e.ns, e.root, e.tcp, e.how = 0)
         IN IF bad THEN Chk("refused", ~e.ok) /\ UNCHANGED <<rob, cfg, setsX>>
            ELSE /\ Chk("accepted", e.ok)
                 /\ SetInfoOK(r, s, e.res)
                 /\ IF e.reg THEN Put(e.r, [r EXCEPT !.st.rns = With(r.st.rns, e.s, s)]) /\ UNCHANGED <<cfg, setsX>>
                    ELSE setsX' = With(setsX, SetKey(e.r, e.s), s) /\ UNCHANGED <<rob, cfg>>
    [] e.op = "nsreg" -> LET s == GetSet(e.r, e.s) IN
         Put(e.r, [r EXCEPT !.st.rns = With(r.st.rns, e.s, s)]) /\ setsX' = Without(setsX, SetKey(e.r, e.s)) /\ UNCHANGED cfg
    [] e.op = "nsdel" -> Put(e.r, [r EXCEPT !.st.rns = Without(r.st.rns, e.s)]) /\ UNCHANGED <<cfg, setsX>>
    [] e.op = "nsroot" -> LET s == [GetSet(e.r, e.s) EXCEPT !.root = e.n] IN
         /\ SetInfoOK(r, s, e.res)
         /\ IF SetKey(e.r, e.s) \in DOMAIN setsX THEN setsX' = With(setsX, SetKey(e.r, e.s), s) /\ UNCHANGED <<rob, cfg>>
            ELSE Put(e.r, [r EXCEPT !.st.rns[e.s] = s]) /\ UNCHANGED <<cfg, setsX>>
    [] e.op = "nsclone" -> LET s == GetSet(e.r, e.s)  t == rob[e.t]
                               c == [s EXCEPT !.root = IF CoversAll(t, s.root, s.nodes) THEN s.root ELSE t.st.root] IN
         IF e.s \in DOMAIN t.st.rns THEN Chk("refused", ~e.ok) /\ UNCHANGED <<rob, cfg, setsX>> ELSE
         /\ Chk("accepted", e.ok)
         /\ SetInfoOK(t, c, e.res)
         /\ Put(e.t, [t EXCEPT !.st.rns = With(t.st.rns, e.s, c)]) /\ UNCHANGED <<cfg, setsX>>

(* files *)
NameIn(e) == Fn(e.full)[e.r].name
LoadDesc(e) == Chk("loaded", e.ok /\ e.res) /\ Put(e.r, LoadedRobot(e.desc, IF e.how = 1 THEN 0 ELSE e.how, NameIn(e))) /\ Keep(e)
LoadStored(e) == Chk("loaded", e.ok /\ e.res) /\ Put(e.r, StoredRobot(rob[e.from], NameIn(e), e.b1, e.b2, e.b3)) /\ Keep(e)

(* the loaded or copied robot as observed, used when the content is not what is being decided *)
LoadX(e) ==
  Put(e.r, Adopt(Fn(e.full)[e.r], Fn(e.st)[e.r], PropOf(e))) /\ Keep(e)
Clone(e) ==
  LET r == rob[e.r]
      T == Nodes(r)
      sc == IF e.sc = 0 THEN 1000 ELSE e.sc
      nm == IF e.sc = 0 THEN r.st.name ELSE e.t
      st == CopyStatic(r, nm, r.st.type, r.st.root, T, sc, TRUE, TRUE)
  IN Put(e.t, CopyRobot(r, st, T, r.pose)) /\ Keep(e)
SubPart(e) ==
  LET r == rob[e.r]
      T == Sub(r, e.n)
      st == CopyStatic(r, e.t, "subtype", e.n, T, 1000, e.b1, e.b2)
  IN Put(e.t, CopyRobot(r, st, T, IdPose)) /\ Keep(e)

Configs(e) ==
  LET m == IF Has(e, "m") THEN Fn(e.m) ELSE [x \in {} |-> 0] IN
  CASE e.op = "cnew" ->
        LET r == rob[e.r]
            unknown == \E n \in DOMAIN m : n \notin Nodes(r)
            refuse == e.how \in {5} \/ (e.how = 3 /\ unknown)
            mm == IF e.how = 4 THEN [n \in Joints(r) |-> r.q[n]] ELSE Known(r, m)
        IN IF refuse THEN Chk("refused", ~e.ok) /\ cfg' = Without(cfg, e.c) /\ UNCHANGED <<rob, setsX>>
           ELSE cfg' = With(cfg, e.c, [rob |-> e.r, rname |-> r.st.name, m |-> mm, tcp |-> ""]) /\ UNCHANGED <<rob, setsX>>
    [] e.op = "cnewl" ->
        LET r == rob[e.r]
            unknown == ToSet_(e.ns) \ Nodes(r) # {}
            LastAt(n) == CHOOSE k \in DOMAIN e.ns : e.ns[k] = n /\ \A j \in DOMAIN e.ns : e.ns[j] = n => j <= k
        IN IF e.how = 2 /\ unknown THEN Chk("refused", ~e.ok) /\ cfg' = Without(cfg, e.c) /\ UNCHANGED <<rob, setsX>>
           ELSE Chk("created", e.ok) /\ cfg' = With(cfg, e.c, [rob |-> e.r, rname |-> r.st.name, m |-> [n \in ToSet_(e.ns) \cap Nodes(r) |-> e.vs[LastAt(n)]], tcp |-> ""]) /\ UNCHANGED <<rob, setsX>>
    [] e.op = "cxml" ->
        /\ Chk("saved and loaded", e.ok)
        /\ e.ok => Eq("saved values", cfg[e.c].m, Fn(e.res.m))
        /\ e.ok => Eq("saved tool point", cfg[e.c].tcp, e.res.tcp)
        /\ e.ok => Chk("loaded configurations", e.res.own)
        /\ UNCHANGED <<rob, cfg, setsX>>
    [] e.op = "cset" ->
        LET c == cfg[e.c]  r == rob[c.rob] IN
        IF e.n \notin Nodes(r)
        THEN (F({"C07"}) => Chk("write refused", ~e.ok \/ e.res = FALSE)) /\ UNCHANGED <<rob, cfg, setsX>>
        ELSE Chk("write accepted", e.ok /\ e.res = TRUE) /\ cfg' = [cfg EXCEPT ![e.c].m = With(c.m, e.n, e.v)] /\ UNCHANGED <<rob, setsX>>
    [] e.op = "csetof" -> (F({"C07"}) => Chk("write to a foreign node refused", ~e.ok \/ e.res = FALSE)) /\ UNCHANGED <<rob, cfg, setsX>>
    [] e.op = "cget" ->
        /\ F({"C07"}) => LET c == cfg[e.c] IN
             /\ Eq("contains", e.n \in DOMAIN c.m, e.res.has)
             /\ Eq("value", IF e.n \in DOMAIN c.m THEN c.m[e.n] ELSE 0, e.res.v)
        /\ UNCHANGED <<rob, cfg, setsX>>
    [] e.op = "cclone" ->
        LET c == cfg[e.c]  t == IF e.r = "-" THEN c.rob ELSE e.r  r == rob[t] IN
        /\ cfg' = With(cfg, e.d, [rob |-> t, rname |-> r.st.name, m |-> Known(r, c.m), tcp |-> IF c.tcp \in Nodes(r) THEN c.tcp ELSE ""])
        /\ UNCHANGED <<rob, setsX>>
    [] e.op = "ctcp" ->
        LET c == cfg[e.c]  r == rob[c.rob] IN
        IF e.n \notin Nodes(r) /\ e.b THEN Chk("refused", e.res = FALSE) /\ UNCHANGED <<rob, cfg, setsX>>
        ELSE cfg' = [cfg EXCEPT ![e.c].tcp = IF e.n \in Nodes(r) THEN e.n ELSE ""] /\ UNCHANGED <<rob, setsX>>
    [] e.op = "capply" ->
        LET c == cfg[e.c]
            t == IF e.how = 0 THEN c.rob ELSE e.r
            r == rob[t]
        IN IF \E n \in DOMAIN c.m : n \notin Nodes(r)
           THEN (e.how = 3 => Chk("refused", e.res = FALSE)) /\ UNCHANGED <<rob, cfg, setsX>>
           ELSE Chk("applied", e.ok /\ e.res = TRUE) /\ SetMany(t, c.m) /\ UNCHANGED <<cfg, setsX>>
    [] e.op = "cdump" -> UNCHANGED <<rob, cfg, setsX>>

(* another structure *)
New(t, r) == Put(t, r) /\ UNCHANGED <<cfg, setsX>>
Restruct(e) ==
  LET r == rob[e.r] IN
  CASE e.op = "inv" -> Chk("accepted", e.ok /\ e.res) /\ New(e.t, InvRobot(r, e.n, e.b1, e.b2))
    [] e.op = "chain2" -> IF ~(e.n2 \in Sub(r, e.n1) /\ e.n1 # e.n2) THEN Chk("refused", ~e.ok \/ ~e.res) /\ UNCHANGED <<rob, cfg, setsX>>
                          ELSE Chk("accepted", e.ok /\ e.res) /\ New(e.t, ChainRobot(r, e.n1, e.n2))
    [] e.op = "subset" -> LET s == GetSet(e.r, e.s) IN
                          IF ~SubsetOK(r, SubsetChain(r, s)) THEN Chk("refused", ~e.ok) /\ UNCHANGED <<rob, cfg, setsX>>
                          ELSE Chk("accepted", e.ok /\ e.res) /\ New(e.t, SubsetRobot(r, s, e.t))
    [] e.op = "unite" -> Chk("accepted", e.ok /\ e.res) /\ New(e.t, UniteRobot(r, ToSet_(e.ns), e.t))
    [] e.op = "attach" -> IF e.t \in Nodes(r) THEN Chk("refused", e.res = FALSE) /\ UNCHANGED <<rob, cfg, setsX>>
                          ELSE Chk("accepted", e.ok /\ e.res) /\ New(e.r, AttachNode(r, e.n, e.t, e.p))
    [] e.op = "detach" -> IF e.n = r.st.root THEN Chk("refused", e.res = FALSE) /\ UNCHANGED <<rob, cfg, setsX>>
                          ELSE Chk("accepted", e.ok /\ e.res) /\ New(e.r, DetachNode(r, e.n))
    [] e.op = "geo" ->
         (* both robots take the values m, the second one is placed at the first by its node ref *)
         LET m == Fn(e.m)
             r1 == Update(Write(r, Known(r, m)), Nodes(r))
             c0 == Update(Write(rob[e.t], Known(rob[e.t], m)), Nodes(rob[e.t]))
             c1 == IF e.n = "-" THEN c0 ELSE Update([c0 EXCEPT !.pose = Mul(Mul(r1.gp[e.n], Inv(c0.gp[e.n])), c0.pose)], Nodes(c0))
         IN /\ F({"C20"}) =>
                 /\ Chk("values and placing", e.ok)
                 /\ Chk(<<"relative poses of the nodes", e.n>>, GeomKept(r1, c1, IF e.n = "-" THEN CHOOSE x \in Nodes(r1) \cap Nodes(c1) : TRUE ELSE e.n))
                 /\ e.b => Chk(<<"models", e.res.vis, e.res.col>>, e.res.vis = 0 /\ e.res.col = 0)
                 /\ e.b => Chk(<<"mass, centre of mass, sensors", e.res.mass, e.res.com, e.res.sens>>, e.res.mass = 0 /\ e.res.com = 0 /\ e.res.sens = 0)
            /\ rob' = [rob EXCEPT ![e.r] = r1, ![e.t] = c1] /\ UNCHANGED <<cfg, setsX>>

Step(e) ==
  CASE e.op = "reset" -> rob' = [x \in {} |-> 0] /\ cfg' = [x \in {} |-> 0] /\ setsX' = [x \in {} |-> 0]
    [] e.op = "load" /\ Has(e, "desc") -> LoadDesc(e)
    [] e.op = "load" /\ Has(e, "from") -> LoadStored(e)
    [] e.op = "load" /\ ~Has(e, "desc") /\ ~Has(e, "from") -> LoadX(e)
    [] e.op = "loadbad" -> Chk("description refused", ~e.ok) /\ UNCHANGED <<rob, cfg, setsX>>
    [] e.op = "save" -> Chk("stored", e.ok /\ e.res) /\ UNCHANGED <<rob, cfg, setsX>>
    [] e.op = "clone" -> Clone(e)
    [] e.op = "sub" -> SubPart(e)
    [] e.op \in {"inv","chain2","subset","unite","attach","detach","geo"} -> Restruct(e)
    [] e.op = "del" -> rob' = Without(rob, e.r) /\ UNCHANGED <<cfg, setsX>>
    [] e.op \in {"q","qr","qn","qnou","apply","qmap","qcfg","qset","qcfgset","qtraj","pose","poseb","poseno","posenode","posnode",
                 "upv","upc","upvn","limits","limitless","enforce","prop","dyn","mass","loc"} -> Moves(e)
    [] e.op \in {"delta","inlim","resp","frames","com","nsinfo","nsget","nslim","nsmut","nssuff","nslist","tree","full"} -> Queries(e)
    [] e.op \in {"nsnew","nsreg","nsdel","nsroot","nsclone"} -> NodeSets(e)
    [] e.op \in {"cnew","cnewl","cxml","cset","csetof","cget","cclone","ctcp","capply","cdump"} -> Configs(e)

TInit == i = 1 /\ rob = [x \in {} |-> 0] /\ cfg = [x \in {} |-> 0] /\ setsX = [x \in {} |-> 0]
TNext == /\ i <= Len(Log)
         /\ LET e == Log[i] IN Step(e) /\ Holds(StateOK(e)) /\ Holds(StaticOK(e)) /\ Holds(CfgOK(e))
         /\ i' = i + 1
=============================================================================
