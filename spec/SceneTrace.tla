----------------------------- MODULE SceneTrace -----------------------------
(* Validation of histories of the real library against SceneReg.tla (C06).     *)
EXTENDS SceneReg, Common

O(s) == IF s = "-" THEN "" ELSE s
Chunks(v, n) == [k \in 1..(Len(v) \div n) |-> SubSeq(v, (k-1)*n + 1, k*n)]
Id2(k, id) == <<k, id>>

CfgJ(c) == [c EXCEPT !.m = Fn(c.m)]
RobJ(r) == [r EXCEPT !.q = Fn(r.q), !.cfg = [k \in 1..Len(r.cfg) |-> CfgJ(r.cfg[k])]]
DumpOK(what, c, d) ==
  /\ Eq(<<what, "name">>, c.name, d.name)
  /\ Eq(<<what, "number of robots">>, Len(c.rb), Len(d.rb))
  /\ \A k \in 1..Len(c.rb) : LET a == c.rb[k]  b == RobJ(d.rb[k]) IN
       /\ Eq(<<what, "robot", k>>, <<a.name, a.type, a.pose>>, <<b.name, b.type, b.pose>>)
       /\ Eq(<<what, "joint values", k>>, a.q, b.q)
       /\ Eq(<<what, "configurations", k>>, a.cfg, b.cfg)
  /\ Eq(<<what, "obstacles">>, c.ob, d.ob)
  /\ Eq(<<what, "manipulation objects">>, c.mo, d.mo)
  /\ Eq(<<what, "sets">>, c.se, d.se)
  /\ Eq(<<what, "trajectories">>, c.tr, d.tr)

ListOK(e) ==
  /\ \A k \in Kinds : Eq(<<"registered", k>>, sc[k], e.res[k])
  /\ \A r \in DOMAIN it.rb : Eq(<<"configurations of", r>>, Listed(r), Fn(e.res.cf)[r])
  /\ \A s \in DOMAIN it.se : Eq(<<"members of", s>>, [j \in 1..Len(Members(s)) |-> Members(s)[j][2]], Fn(e.res.sm)[s])

Query(e) ==
  /\ UNCHANGED <<it, sc, files>>
  /\ CASE e.op = "shas" -> Eq("registered", Elem(e.x, sc[e.k]), e.res)
       [] e.op = "sget" -> Eq("found by name", <<Find(e.k, e.nm) # "", Find(e.k, e.nm)>>, <<e.res.h, e.res.g>>)
       [] e.op = "sgetc" -> /\ Eq("configuration by name", <<FindCfg(e.r, e.nm) # "", FindCfg(e.r, e.nm)>>, <<e.res.h, e.res.g>>)
                            /\ Eq("has the configuration", Elem(e.c, Cfgs(e.r)), e.res.hc)
                            /\ Eq("configurations", Listed(e.r), e.res.l)
       [] e.op = "sgetcn" -> LET r == Find("rb", e.rn) IN
                             IF r # "" THEN Eq("configuration by names", FindCfg(r, e.nm), e.res)
                             ELSE Chk(<<"configuration of a robot of that name", e.res>>, e.res = "" \/ \E x \in DOMAIN it.rb : NameOf("rb", x) = e.rn /\ FindCfg(x, e.nm) = e.res)
       [] e.op = "strajs" -> Eq("trajectories of the robot", SelectBy(sc.tr, LAMBDA t : NameOf("rb", it.tr[t].rob) = e.rn), e.res)
       [] e.op = "srns" -> Eq("node set", IF Find("rb", e.rn) = "" \/ e.nm \notin it.rb[Find("rb", e.rn)].rns THEN "" ELSE Find("rb", e.rn) \o "/" \o e.nm, e.res)
       [] e.op = "sshas" -> Eq("member", Elem(Id2(e.k, e.x), Members(e.s)), e.res)
       [] e.op = "sdump" -> /\ Eq("obstacles", Content.ob, e.res.ob) /\ Eq("manipulation objects", Content.mo, e.res.mo)
                            /\ Eq("sets", Content.se, e.res.se) /\ Eq("trajectories", Content.tr, e.res.tr)
       [] e.op = "sload" -> files[e.file].ok => (Chk(<<"loaded", Get(e, "err", "")>>, e.ok) /\ DumpOK("loaded", files[e.file].c, e.res))
       [] e.op = "slist" -> ListOK(e)

Step(e) ==
  CASE e.op = "reset" -> it' = NoItems /\ sc' = NoScene /\ files' = E0
    [] e.op = "scene" -> sc' = [NoScene EXCEPT !.name = e.nm] /\ UNCHANGED <<it, files>>
    [] e.op = "srob" -> SetItem("rb", e.x, [name |-> e.nm, type |-> e.res.type, q |-> Fn(e.res.q), pose |-> e.res.pose, rns |-> {e.rns[k] : k \in 1..Len(e.rns)}])
    [] e.op = "sq" -> SetItem("rb", e.x, [it.rb[e.x] EXCEPT !.q = Overlay(@, Fn(e.m))])
    [] e.op = "spose" -> SetItem("rb", e.x, [it.rb[e.x] EXCEPT !.pose = e.p])
    [] e.op = "sobst" -> SetItem("ob", e.x, [name |-> e.nm, pose |-> e.p, v |-> IF e.how = 2 THEN 0 ELSE e.l, c |-> IF e.how = 1 THEN 0 ELSE e.l, kg |-> e.kg])
    [] e.op = "sman" -> Chk("made", e.ok) /\ SetItem("mo", e.x, [name |-> e.nm, pose |-> e.p, v |-> e.l, c |-> e.l])
    [] e.op = "smanfile" -> Chk("stored", e.ok /\ e.res) /\ UNCHANGED <<it, sc, files>>
    [] e.op = "smove" -> SetItem(e.k, e.x, [it[e.k][e.x] EXCEPT !.pose = e.p])
    [] e.op = "scfg" -> SetItem("cf", e.x, [name |-> e.nm, rob |-> e.r, m |-> Fn(e.m), tcp |-> O(e.tcp)])
    [] e.op = "straj" -> SetItem("tr", e.x, [name |-> e.nm, rob |-> e.r, rns |-> e.rns, p |-> Chunks(e.vs, e.n)])
    [] e.op = "sset" -> SetItem("se", e.x, [name |-> e.nm, m |-> <<>>])
    [] e.op = "ssadd" -> Eq("added", ~Elem(Id2(e.k, e.x), Members(e.s)), e.res) /\ AddMember(e.s, Id2(e.k, e.x))
    [] e.op = "ssrem" -> Eq("removed", Elem(Id2(e.k, e.x), Members(e.s)), e.res) /\ RemMember(e.s, Id2(e.k, e.x))
    [] e.op = "ssall" -> LET r == AddAll(Members(e.s), Members(e.t)) IN Eq("all added", r[2], e.res) /\ SetItem("se", e.s, [it.se[e.s] EXCEPT !.m = r[1]])
    [] e.op = "ssclone" -> SetItem("se", e.t, [name |-> e.nm, m |-> Members(e.s)])
    [] e.op = "sreg" -> Register(e.k, e.x)
    [] e.op = "sdereg" -> Deregister(e.k, e.x)
    [] e.op = "sderegn" -> DeregisterName(e.k, e.nm)
    [] e.op = "sregc" -> RegisterCfgs(e.r, e.cs)
    [] e.op = "sderegc" -> DeregisterCfg(e.r, e.c)
    [] e.op = "sderegcn" -> DeregisterCfgName(e.r, e.nm)
    [] e.op = "ssave" -> Chk("stored", e.ok /\ e.res) /\ Save(e.file)
    [] OTHER -> Query(e)

TInit == i = 1 /\ it = NoItems /\ sc = NoScene /\ files = E0
TNext == /\ i <= Len(Log)
         /\ LET e == Log[i] IN Step(e)
         /\ i' = i + 1
=============================================================================
