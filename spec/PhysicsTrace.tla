---------------------------- MODULE PhysicsTrace ----------------------------
(* Validation of histories of the real physics world against Physics.tla (C19).*)
EXTENDS Physics, Common

PairSet(l) == { {l[k][1], l[k][2]} : k \in 1..Len(l) }
Count(l, p) == Cardinality({ k \in 1..Len(l) : {l[k][1], l[k][2]} = p })
Sorted(l, S) == ToSet_(l) = S /\ Len(l) = Cardinality(S)
ActOf(s, w) == LET A == s.wr[w].act IN
  [j \in { j \in DOMAIN A : A[j].m # {} \/ A[j].t # 0 } |-> [on |-> A[j].m # {}, t |-> A[j].t]]
Same(s, x) == x \in s.mov \/ (IF IsNode(s, x) THEN BodyAt(s, x) # ThingAt(s, x) ELSE FALSE)
Ask(e, x) == Fn(e.st.bp)[x]
StateOK(e, s) ==
  /\ Chk(<<"objects of the world", InWorld(s), e.st.obj>>, Sorted(e.st.obj, InWorld(s)))
  /\ Eq("free objects", s.reg, e.st.free)
  /\ Eq("robots of the world", s.regR, e.st.rob)
  /\ Chk(<<"bodies", InWorld(s), e.st.body>>, Sorted(e.st.body, InWorld(s)))
  /\ Chk(<<"constraints", Constraints(s), e.st.con>>, PairSet(e.st.con) = Constraints(s) /\ \A p \in Constraints(s) : Count(e.st.con, p) = Joined(s, p))
  /\ Eq("objects that do not collide", s.off1, ToSet_(e.st.off1))
  /\ LET K == Known(s)  D == { p \in s.off : p \subseteq K } \cup { {x, y} : <<x, y>> \in { <<x, y>> \in K \X K : x # y /\ (x \in s.off1 \/ y \in s.off1) } }  G == PairSet(e.st.off)
     IN Chk(<<"pairs that do not collide: missing", D \ G, "too many", G \ D>>, D = G)
  /\ \A x \in DOMAIN Fn(e.st.sp) :
       /\ Chk(<<"place of", x, ThingAt(s, x), Fn(e.st.sp)[x]>>, Agrees(ThingAt(s, x), Fn(e.st.sp)[x]))
       /\ Chk(<<"place of the body of", x, BodyAt(s, x), Ask(e, x)>>, Agrees(BodyAt(s, x), Ask(e, x).p))
       /\ Chk(<<"body and object are in one place", x, Ask(e, x)>>, Same(s, x) \/ (Ask(e, x).same /\ Ask(e, x).mot))
  /\ \A r \in DOMAIN s.rb : \/ \E x \in s.mov : IsNode(s, x) /\ s.wr[OwnerOf(s, x)].r = r
                            \/ Chk(<<"place of robot", r, s.rb[r].pose, Fn(e.st.rp)[r]>>, s.rb[r].pose = Fn(e.st.rp)[r])
  /\ \A w \in DOMAIN s.wr : Eq(<<"actuation", w>>, ActOf(s, w), [j \in DOMAIN Fn(Fn(e.st.act)[w]) |-> Fn(Fn(e.st.act)[w])[j]])

NameOf(s, x) == IF IsNode(s, x) THEN NodeOf(s, x) ELSE IF s.ob[x].fl THEN "Floor" ELSE x
Hits(e, s) ==
  LET W == InWorld(s)
      two == { <<x, y>> \in W \X W : x # y }
      got == PairSet(e.res)
      yes == { {NameOf(s, t[1]), NameOf(s, t[2])} : t \in { t \in two : Contact(s, t[1], t[2]) = "yes" } }
      may == { {NameOf(s, t[1]), NameOf(s, t[2])} : t \in { t \in two : Contact(s, t[1], t[2]) # "no" } }
  IN /\ Chk(<<"contacts that are missing", yes \ got>>, yes \subseteq got)
     /\ Chk(<<"contacts that must not be", got \ may>>, got \subseteq may)

HalfFloor(u) == <<IF u[1] # 0 THEN 250 ELSE 25000, IF u[2] # 0 THEN 250 ELSE 25000, IF u[3] # 0 THEN 250 ELSE 25000>>
FloorAt(p, u) == <<p[1] - 250*u[1], p[2] - 250*u[2], p[3] - 250*u[3]>>
Span(p, u, k, sg) == FloorAt(p, u)[k] + sg * HalfFloor(u)[k]

(* values of joints that are not known are taken over *)
Seen(e, w, n) == LET A == Fn(Fn(e.st.act)[w]) IN IF n \in DOMAIN A THEN A[n].t ELSE 0
Now(e, w, n) == IF ph.hot THEN Seen(e, w, n) ELSE 0
(* poses after a step in which something moved *)
After(e, s) == [s EXCEPT !.ob = [x \in DOMAIN @ |-> IF x \in s.mov /\ x \in DOMAIN Fn(e.st.sp) THEN [@[x] EXCEPT !.p = Fn(e.st.sp)[x]] ELSE @[x]]]
Set(e, s) == StateOK(e, s) /\ ph' = s
Want(e, v) == Eq("result", v, e.res)
Modes(m) == (IF m % 2 = 1 THEN {"p"} ELSE {}) \cup (IF (m \div 2) % 2 = 1 THEN {"v"} ELSE {}) \cup (IF m >= 4 THEN {"q"} ELSE {})

Nodes(e) == LET f == Fn(e.nodes) IN [n \in DOMAIN f |-> f[n]]
Known_(e) == e.name \in { r \in DOMAIN ph.rb : \E w \in SetOf(ph.regR) : ph.wr[w].r = r }
Step(e) ==
  CASE e.op = "reset" -> Want(e, TRUE) /\ Set(e, Empty)
    [] e.op = "obj" -> Want(e, TRUE) /\ Set(e, NewObject(ph, e.x, e.t, e.h, e.p))
    [] e.op = "renew" -> Want(e, TRUE) /\ Set(e, Renew(ph, e.x))
    [] e.op = "robot" -> Want(e, TRUE) /\ ph' = NewRobotP(ph, e.r, Nodes(e))
    [] e.op = "wrap" -> Want(e, TRUE) /\ Set(e, Wrap(ph, e.w, e.r))
    [] e.op = "add" -> Chk("answered", e.ok) /\ (e.x \notin SetOf(ph.reg) => Want(e, TRUE)) /\ Set(e, Add(ph, e.x))
    [] e.op = "rem" -> Want(e, e.x \in SetOf(ph.reg)) /\ Set(e, Take(ph, e.x))
    [] e.op = "addr" -> Chk("answered", e.ok) /\ (e.w \notin SetOf(ph.regR) => Want(e, MayAddRobot(ph, e.w))) /\ Set(e, AddRobot(ph, e.w))
    [] e.op = "remr" -> Want(e, e.w \in SetOf(ph.regR)) /\ Set(e, RemoveRobot(ph, e.w))
    [] e.op = "floor" -> /\ Chk("answered", e.ok)
                         /\ Set(e, Floor(ph, e.f, FloorAt(e.p, e.u), e.u, HalfFloor(e.u)))
                         /\ Eq("floor", <<e.p, e.u>>, <<e.res.p, e.res.u>>)
                         /\ \A k \in 1..3 : /\ Eq(<<"floor from", k>>, Span(e.p, e.u, k, -1), e.res.lo[k]) /\ Eq(<<"floor to", k>>, Span(e.p, e.u, k, 1), e.res.hi[k])
                                            /\ Chk(<<"body of the floor", e.res.blo, e.res.bhi>>, Ab(e.res.blo[k] - Span(e.p, e.u, k, -1)) <= 3 /\ Ab(e.res.bhi[k] - Span(e.p, e.u, k, 1)) <= 3)
    [] e.op = "off" -> Set(e, Off(ph, e.x, e.y))
    [] e.op = "on" -> Set(e, On(ph, e.x, e.y))
    [] e.op = "off1" -> Set(e, Off1(ph, e.x))
    [] e.op = "on1" -> Set(e, On1(ph, e.x))
    [] e.op = "resetc" -> Set(e, Renew(ph, e.x))
    [] e.op = "self" -> Set(e, Self(ph, e.w, e.b))
    [] e.op = "att" -> LET there == ~e.b \/ e.w \in SetOf(ph.regR) IN
                       /\ Want(e, there /\ CanAttach(ph, e.w, e.n)) /\ Set(e, IF there THEN Attach(ph, e.w, e.n, e.x) ELSE ph)
    [] e.op = "det" -> LET there == ~e.b \/ e.w \in SetOf(ph.regR) IN
                       /\ Want(e, there) /\ Set(e, IF there THEN Detach(ph, e.w, e.x) ELSE ph)
    [] e.op = "pose" -> Chk("answered", e.ok) /\ Set(e, Pose(ph, e.x, e.p))
    [] e.op = "pos" -> Chk("answered", e.ok) /\ Set(e, Position(ph, e.x, e.v))
    [] e.op = "rpose" -> Chk("answered", e.ok) /\ Set(e, PoseRobot(ph, e.w, e.p))
    [] e.op = "typ" -> Want(e, e.t) /\ Set(e, Type(ph, e.x, e.t))
    [] e.op = "cb" -> Want(e, TRUE) /\ ph' = [ph EXCEPT !.cb = Append(@, e.n)]
    [] e.op = "step" -> LET s == StepWorld(ph, e.dt, e.k, e.f) IN
                        /\ Chk(<<"answered", e>>, e.ok) /\ Eq("simulated time", s.t, e.res.t) /\ Eq("callbacks", Calls(ph, e.dt, e.k, e.f), e.res.c)
                        /\ StateOK(e, s) /\ ph' = After(e, s)
    [] e.op = "hits" -> Chk("answered", e.ok) /\ Hits(e, ph) /\ UNCHANGED ph
    [] e.op = "getobj" -> LET S == { x \in InWorld(ph) : NameOf(ph, x) = e.x } IN
                          /\ Chk(<<"object by name", S, e.res>>, IF S = {} THEN e.res = "-" ELSE e.res \in S) /\ UNCHANGED ph
    [] e.op = "getrob" -> LET S == { w \in SetOf(ph.regR) : ph.wr[w].r = e.r } IN
                          /\ Chk(<<"robot by name", S, e.res>>, IF S = {} THEN e.res = "-" ELSE e.res \in S) /\ UNCHANGED ph
    [] e.op = "act" -> Set(e, ActPos(ph, e.w, e.n, e.v))
    [] e.op = "actpv" -> Set(e, ActPosVel(ph, e.w, e.n, e.t, e.v))
    [] e.op = "actv" -> Set(e, ActVel(ph, e.w, e.n, e.v, Now(e, e.w, e.n)))
    [] e.op = "actt" -> Set(e, ActTorque(ph, e.w, e.n, e.v))
    [] e.op = "actno" -> Set(e, ActNone(ph, e.w, e.n))
    [] e.op = "acton" -> Set(e, ActModes(ph, e.w, Modes(e.m)))
    [] e.op = "actoff" -> Set(e, ActModes(ph, e.w, {}))

TInit == i = 1 /\ ph = Empty
TNext == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
=============================================================================
