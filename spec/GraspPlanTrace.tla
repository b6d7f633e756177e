--------------------------- MODULE GraspPlanTrace ---------------------------
EXTENDS GraspPlan, Common

vars == <<gvars, i>>
Num(x) == Fn(x)
(* what was observed after every operation *)
World(e) ==
  IF ~Has(e, "st") THEN Chk("observed", gen' = None) /\ eef' = <<>> /\ cq' = <<>> ELSE
  /\ gen' # None
  /\ Eq("robot pose", orig'.p, e.st.rp)
  /\ Eq("robot joints", orig'.q, Num(e.st.rq))
  /\ Eq("objects", ob', e.st.ob)
  /\ Eq("both forms of the pose", 0, e.st.bef)
  /\ Chk("hand is rigid", Rigid(e.st.eef))
  /\ eef' = e.st.eef /\ cq' = Num(e.st.cq)
Idle(e) == IF Has(e, "st") THEN Chk("hand stays", Close(e.st.eef, eef) /\ Num(e.st.cq) = cq) ELSE TRUE
Keep_ == UNCHANGED <<ob, shp, hnd, orig, gen, par, obst, cnt, size>>

Reset(e) == /\ ob' = <<>> /\ shp' = <<>> /\ hnd' = None /\ orig' = None /\ gen' = None
            /\ par' = None /\ obst' = {} /\ cnt' = Zero /\ size' = 0
BlocksOf(m) == [k \in 1..(Len(m) \div 6) |-> SubSeq(m, 6*k - 5, 6*k)]
Robot(e) ==
  /\ Chk("loaded", e.ok)
  /\ hnd' = [rt |-> e.rt, name |-> e.e, hj |-> ToSet_(e.hj), lo |-> Fn(e.lo), pre |-> [p \in DOMAIN Fn(e.pre) |-> Fn(e.pre[p])], ptcp |-> Fn(e.ptcp)]
  /\ orig' = [p |-> IdPose, q |-> [j \in ToSet_(e.jn) |-> 0]]
  /\ UNCHANGED <<ob, shp, gen, par, obst, cnt, size>>
Gen(e) ==
  /\ Eq("generator", [gcp |-> "gcp"], e.res)
  /\ gen' = [o |-> e.o, pre |-> e.pre, ret |-> e.ret, area |-> e.area]
 
  /\ IF e.pre # "-" THEN Chk("the preshape is applied", \A j \in DOMAIN hnd.pre[e.pre] : Num(e.st.cq)[j] = 100 * hnd.pre[e.pre][j]) ELSE TRUE
  /\ UNCHANGED <<ob, shp, hnd, orig, par, obst, cnt, size>>
Planner(e) == /\ Chk("made", e.ok) /\ par' = [q |-> e.q, fc |-> e.fc] /\ cnt' = Zero /\ size' = 0 /\ Idle(e)
              /\ UNCHANGED <<ob, shp, hnd, orig, gen, obst>>
Surf(e) ==
  LET src == [k \in 1..Len(e.res) |-> From(gen.o, e.res[k].p, e.res[k].d)] IN
  /\ \A k \in 1..Len(e.res) : Chk(<<"on the surface with the normal of a face", e.res[k]>>, src[k] # {})
  /\ IF gen.area THEN \A k \in 1..Len(e.res) : Chk(<<"faces are drawn by their area", e.res[k]>>, \E b \in src[k] : ~Negligible(gen.o, b)) ELSE TRUE
  /\ IF ~gen.area /\ Len(e.res) >= 60 /\ Get(e, "apart", FALSE)
     THEN Chk("every face can be drawn", \A b \in 1..Len(shp[gen.o]) : \E k \in 1..Len(e.res) : b \in src[k]) ELSE TRUE
App(e) ==
  /\ Chk("approach pose", Rigid(e.res.p) /\ Approach(gen.o, e.res.p, e.res.d))
  /\ Eq("free of the object", FALSE, e.res.hit)
  /\ Chk("the hand is back", Close(e.st.eef, eef))
  /\ Chk("the hand is open", Opened(cq, Num(e.st.cq))) /\ Keep_
Rand(e) ==
  /\ Eq("moved", TRUE, e.res.b)
  /\ Chk("approach pose", Approach(gen.o, e.st.eef, e.res.d))
  /\ Eq("free of the object", FALSE, e.res.hit)
  /\ Chk("the hand is open", Opened(cq, Num(e.st.cq))) /\ Keep_
Counters(e) == [gen |-> e.gen, ok |-> e.ok, col |-> e.col, fc |-> e.fc, con |-> e.con]
BooksOK(e) ==
  /\ Chk(<<"counters add up", e>>, Books(Counters(e)))
  /\ Eq("lists of the evaluation", <<e.gen, e.gen, e.gen, e.gen, e.ok, e.gen, e.ok, 0>>, <<e.nt, e.ns, e.nv, e.np, e.vt, e.pt, e.pow, e.prec>>)
GraspOK(g, o) ==
  /\ Eq("robot type and hand", <<hnd.rt, hnd.name>>, <<g.rt, g.ef>>)
  /\ Chk(<<"quality", g.q>>, g.q >= 100 * par.q - 2 - par.q \div 10)
  /\ Eq("joints of the grasp", hnd.hj, DOMAIN Fn(g.cfg))
  /\ Chk("grasp free of obstacles", ~o \/ g.clear)
Plan1(e) ==
  LET r == e.res  c == Counters(r.e)  n == Len(r.con)  d == LocalD(ob[gen.o], ZAxis(e.st.eef)) IN
  /\ BooksOK(r.e)
  /\ Chk(<<"one hypothesis, one verdict", cnt, c>>, \E k \in {"ok", "col", "fc", "con"} : c = Step1(cnt, k))
  /\ Eq("accepted", r.b, c = Step1(cnt, "ok"))
  /\ Chk("still an approach pose", Approach(gen.o, e.st.eef, << -(ZAxis(e.st.eef)[1]) \div 10, -(ZAxis(e.st.eef)[2]) \div 10, -(ZAxis(e.st.eef)[3]) \div 10 >>))
  /\ Eq("size of the set", size, r.size)
  /\ Eq("rejected for touching an obstacle", c = Step1(cnt, "col"), r.hito)
  /\ \A k \in 1..n : /\ Chk("contact of this hand with this object", r.con[k].ok)
                     /\ Chk(<<"contact on the object", r.con[k]>>, OnSurface(gen.o, r.con[k].ol))
                     /\ Chk(<<"contact in both frames", r.con[k]>>, \A x \in 1..3 : Ab(GlobalP(ob[gen.o], r.con[k].ol)[x] - r.con[k].og[x]) <= Tol(r.con[k].og))
  /\ IF ~r.hito THEN Eq("rejected for few contacts", c = Step1(cnt, "con"), n < 2) ELSE TRUE
  /\ IF ~r.hito /\ n >= 2
     THEN LET bad == (par.fc /\ ~r.fc) \/ r.q < 100 * par.q - 2 - par.q \div 10
              good == (~par.fc \/ r.fc) /\ r.q >= 100 * par.q + 2 + par.q \div 10 IN
          /\ Chk(<<"accepted although too weak", r.q, r.fc>>, ~(bad /\ r.b))
          /\ Chk(<<"rejected although good", r.q, r.fc>>, ~(good /\ ~r.b))
     ELSE TRUE
  /\ IF r.b
     THEN /\ GraspOK(r.g, e.o)
          /\ Eq("name", GName(size + 1), r.g.nm)
          /\ Chk("the grasp puts the tool point where the hand is", Close(r.g.tcp, r.at))
          /\ Eq("the grasp keeps the joints of the hand", Restrict_(Fn(r.cq), hnd.hj), Fn(r.g.cfg))
          /\ Chk(<<"quality of the contacts", r.g.q, r.q>>, Ab(r.g.q - r.q) <= 3 + Ab(r.q) \div 50)
          /\ Eq("the hand does not penetrate the object", FALSE, r.hit)
     ELSE TRUE
  /\ cnt' = c /\ UNCHANGED <<ob, shp, hnd, orig, gen, par, obst, size>>
PlanN(e) ==
  LET r == e.res  c == Counters(r.e) IN
  /\ BooksOK(r.e)
  /\ Eq("number of grasps", r.n, Len(r.g))
  /\ Chk("no more than asked for", r.n <= Max_(e.n, 0))
  /\ IF e.t = 0 THEN Eq("as many as asked for", Max_(e.n, 0), r.n) ELSE TRUE
  /\ Eq("added to the set in order", TRUE, r.same)
  /\ Eq("size of the set", size + r.n, r.size)
  /\ Eq("accepted hypotheses", cnt.ok + r.n, c.ok)
  /\ Chk("hypotheses only grow", \A k \in DOMAIN c : c[k] >= cnt[k])
  /\ IF r.n = e.n /\ e.n = 0 THEN Eq("nothing asked for, nothing tried", cnt, c) ELSE TRUE
  /\ \A k \in 1..Len(r.g) : GraspOK(r.g[k], e.o) /\ Eq("name", GName(size + k), r.g[k].nm)
  /\ IF ~e.o THEN Eq("no obstacles, no collisions", cnt.col, c.col) ELSE TRUE
  /\ size' = r.size /\ cnt' = c /\ UNCHANGED <<ob, shp, hnd, orig, gen, par, obst>>

Step(e) ==
  CASE e.op = "reset" -> Reset(e)
    [] e.op = "newo" -> /\ Chk("made", e.ok) /\ ob' = With(ob, e.x, e.p) /\ shp' = With(shp, e.x, BlocksOf(e.m)) /\ UNCHANGED <<hnd, orig, gen, par, obst, cnt, size>>
    [] e.op = "robot" -> Robot(e)
    [] e.op = "obst" -> obst' = ToSet_(e.xs) /\ UNCHANGED <<ob, shp, hnd, orig, gen, par, cnt, size>>
    [] e.op = "rpose" /\ gen = None -> orig' = [orig EXCEPT !.p = e.p] /\ UNCHANGED <<ob, shp, hnd, gen, par, obst, cnt, size>>
    [] e.op = "gen" -> Gen(e)
    [] e.op = "planner" -> Planner(e)
    [] e.op = "rpose" -> orig' = [orig EXCEPT !.p = e.p] /\ Idle(e) /\ UNCHANGED <<ob, shp, hnd, gen, par, obst, cnt, size>>
    [] e.op = "q" -> orig' = [orig EXCEPT !.q[e.n] = 100 * e.v] /\ Idle(e) /\ UNCHANGED <<ob, shp, hnd, gen, par, obst, cnt, size>>
    [] e.op = "move" -> ob' = [ob EXCEPT ![e.x] = e.p] /\ Idle(e) /\ UNCHANGED <<shp, hnd, orig, gen, par, obst, cnt, size>>
    [] e.op \in {"oset", "bset"} -> /\ Eq("result", TRUE, e.res) /\ Chk(<<"pose of the hand", e.st.eef>>, Close(e.st.eef, Fine(e.p))) /\ Eq("joints", cq, Num(e.st.cq)) /\ Keep_
    [] e.op = "oupd" -> /\ Eq("result", TRUE, e.res) /\ Chk(<<"pose of the hand", e.st.eef>>, Close(e.st.eef, Shift(eef, e.v))) /\ Eq("joints", cq, Num(e.st.cq)) /\ Keep_
    [] e.op = "oupm" -> /\ Eq("result", TRUE, e.res) /\ Chk(<<"pose of the hand", e.st.eef>>, Close(e.st.eef, Act(e.m, eef))) /\ Eq("joints", cq, Num(e.st.cq)) /\ Keep_
    [] e.op = "open" -> Chk("opened", Opened(cq, Num(e.st.cq))) /\ Chk("the hand stays", Close(e.st.eef, eef)) /\ Keep_
    [] e.op = "surf" -> Surf(e) /\ Idle(e) /\ Keep_
    [] e.op = "app" -> App(e)
    [] e.op = "rand" -> Rand(e)
    [] e.op = "par" -> par' = [par EXCEPT !.q = e.q, !.fc = e.fc] /\ Idle(e) /\ UNCHANGED <<ob, shp, hnd, orig, gen, obst, cnt, size>>
    [] e.op = "retr" -> Idle(e) /\ Keep_
    [] e.op = "clr" -> cnt' = Zero /\ Idle(e) /\ UNCHANGED <<ob, shp, hnd, orig, gen, par, obst, size>>
    [] e.op = "pg" -> Plan1(e)
    [] e.op = "plan" -> PlanN(e)

TInit == /\ i = 1 /\ ob = <<>> /\ shp = <<>> /\ hnd = None /\ orig = None /\ gen = None /\ eef = <<>> /\ cq = <<>>
         /\ par = None /\ obst = {} /\ cnt = Zero /\ size = 0
TNext == i <= Len(Log) /\ i' = i + 1 /\ Step(Log[i]) /\ World(Log[i])
=============================================================================
