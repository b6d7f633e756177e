----------------------------- MODULE GraspTrace -----------------------------
(* Validation of histories of the real library against Grasps.tla (C15).       *)
EXTENDS Grasps, Common

O(s) == IF s = "-" THEN "" ELSE s
GrJ(g) == [g EXCEPT !.cfg = Fn(g.cfg)]
StateOK(e) == LET s == e.st IN
  /\ Eq("grasps", DOMAIN gr', DOMAIN Fn(s.gr))
  /\ \A x \in DOMAIN gr' : Eq(<<"grasp", x>>, gr'[x], GrJ(s.gr[x]))
  /\ Eq("grasp sets", gs', Fn(s.gs))
  /\ Eq("objects", ob', Fn(s.ob))

NewG(e) == [name |-> e.nm, rt |-> e.rt, eef |-> e.eef, p |-> e.p, cr |-> O(e.cr), q |-> e.q, pre |-> O(e.pre), cfg |-> Fn(e.m)]

Query(e) ==
  /\ UNCHANGED <<gr, gs, ob>>
  /\ CASE e.op = "gpose" -> LET g == gr[e.g] IN
            /\ Chk(<<"pose of the tcp", TcpFor(g, e.p), e.res.tcp>>, e.res.tcp = TcpFor(g, e.p))
            /\ Chk(<<"pose of the object", ObjectFor(g, e.p), e.res.obj>>, e.res.obj = ObjectFor(g, e.p))
            /\ Chk(<<"there and back", e.res.b1, e.res.b2>>, e.res.b1 = 0 /\ e.res.b2 = 0)
       [] e.op = "gtarget" -> LET g == gr[e.g] IN
            IF g.rt # "Holder" THEN Chk("another type of robot is refused", ~e.ok)
            ELSE /\ Chk("accepted", e.ok)
                 /\ Eq("end effector", g.eef \in {"left", "right"}, e.res.e)
                 /\ ~e.res.e => Eq("no end effector", IdPose, e.res.p)
                 /\ e.res.e => /\ Chk(<<"object held by the tcp", e.res.tcp, e.res.p>>, e.res.tcp = <<>> \/ e.res.p = ObjectFor(g, e.res.tcp))
                               /\ Chk(<<"back to the tcp", e.res.r>>, e.res.r = 0)
       [] e.op = "gsq" -> LET s == gs[e.s].g IN
            /\ Eq("contains", In(e.g, s), e.res.h) /\ Eq("size", Len(s), e.res.n)
            /\ Eq("contains the name", \E k \in 1..Len(s) : gr[s[k]].name = e.nm, e.res.hn)
            /\ Eq("by index", IF e.k < Len(s) THEN s[e.k + 1] ELSE "", e.res.gi)
            /\ Eq("by name", First(s, LAMBDA x : gr[x].name = e.nm), e.res.gn)
            /\ Eq("compatible", gr[e.g].rt = gs[e.s].rt /\ gr[e.g].eef = gs[e.s].eef, e.res.comp)
       [] e.op = "oq" -> LET s == ob[e.o].s IN
            /\ Eq("has the set", In(e.s, s), e.res.h)
            /\ Eq("has a set for the end effector", \E k \in 1..Len(s) : Match(e.rt, e.eef, s[k]), e.res.ht)
            /\ Eq("set for the end effector", First(s, LAMBDA x : Match(e.rt, e.eef, x)), e.res.gt)
            /\ Eq("set by name", First(s, LAMBDA x : gs[x].name = e.nm), e.res.gn)
       [] e.op = "oqr" -> Eq("set for the end effector of the robot", First(ob[e.o].s, LAMBDA x : Match("Holder", e.eef, x)), e.res)
       [] e.op = "osave" -> Chk("stored", e.ok /\ e.res)
       [] e.op \in {"grob", "grasping"} -> Chk("loaded", e.ok)

Step(e) ==
  CASE e.op = "reset" -> gr' = E0 /\ gs' = E0 /\ ob' = E0
    [] e.op = "gnew" -> NewGrasp(e.g, NewG(e))
    [] e.op = "gname" -> Edit(e.g, "name", e.nm)
    [] e.op = "gtrafo" -> Edit(e.g, "p", e.p)
    [] e.op = "gqual" -> Edit(e.g, "q", e.q)
    [] e.op = "gpre" -> Edit(e.g, "pre", O(e.pre))
    [] e.op = "gcfg" -> Edit(e.g, "cfg", Fn(e.m))
    [] e.op = "gclone" -> CloneGrasp(e.g, e.t)
    [] e.op = "gsnew" -> NewSet(e.s, [name |-> e.nm, rt |-> e.rt, eef |-> e.eef, g |-> e.gs])
    [] e.op = "gsadd" -> AddGrasp(e.s, e.g)
    [] e.op = "gsrem" -> Eq("removed", In(e.g, gs[e.s].g), e.res) /\ RemGrasp(e.s, e.g)
    [] e.op = "gsremi" -> Eq("removed", e.k < Len(gs[e.s].g), e.res) /\ RemIdx(e.s, e.k)
    [] e.op = "gsclear" -> Clear(e.s)
    [] e.op = "gsinc" -> Include(e.s, e.t)
    [] e.op = "gsclone" -> CloneSet(e.s, e.t)
    [] e.op = "gspre" -> SetPre(e.s, O(e.pre))
    [] e.op = "onew" -> NewObj(e.o, e.nm, e.p)
    [] e.op = "omove" -> MoveObj(e.o, e.p)
    [] e.op = "oadd" -> Eq("accepted", CanAdd(e.o, e.s), e.ok) /\ AddSet(e.o, e.s)
    [] e.op = "oinc" -> Eq("accepted", Target(e.o, e.s) # 0, e.ok) /\ IncludeInto(e.o, e.s)
    [] e.op = "oclone" -> Chk("copied", e.ok) /\ CopyObj(e.o, e.t, e.nm, FALSE)
    [] e.op = "oload" -> Chk("loaded", e.ok) /\ CopyObj(e.from, e.t, ob[e.from].name, TRUE)
    [] e.op = "oxml" -> Chk("read back", e.ok) /\ CopyObj(e.o, e.t, ob[e.o].name, TRUE)
    [] OTHER -> Query(e)

TInit == i = 1 /\ gr = E0 /\ gs = E0 /\ ob = E0
TNext == /\ i <= Len(Log)
         /\ LET e == Log[i] IN Step(e) /\ (Has(e, "st") => Holds(StateOK(e)))
         /\ i' = i + 1
=============================================================================
