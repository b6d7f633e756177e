----------------------------- MODULE HandsTrace -----------------------------
(* Validation of histories of real end effectors against Hands.tla (C14).      *)
EXTENDS Hands, Common

E0 == [x \in {} |-> 0]
BoxesOf(l) == [k \in 1..(Len(l) \div 15) |-> LET o == 15*(k-1) IN
   [h |-> <<l[o+1], l[o+2], l[o+3]>>, a |-> <<l[o+4],l[o+5],l[o+6],l[o+7],l[o+8],l[o+9],l[o+10],l[o+11],l[o+12]>>, c |-> <<l[o+13],l[o+14],l[o+15]>>]]
HId(e) == e.r \o "/" \o e.e
H(e) == hand[HId(e)]
ActIdx(h, nm) == CHOOSE a \in 1..Len(h.act) : h.act[a].nm = nm
(* the objects an operation is about: none, one or a set *)
About(e) == CASE e.k = "-" -> {} [] e.k = "o" -> {<<"o", e.o>>} [] e.k = "s" -> Objs_(oset[e.o])
Still == UNCHANGED <<rob, hand, shp, obj, oset>>
Only_rob == UNCHANGED <<hand, shp, obj, oset>>

----------------------------------------------------------------------------
(* observations *)
Obs(e, id) == Fn(e.st)[id]
ObsQ(e, id) == [n \in DOMAIN Obs(e, id).n |-> Obs(e, id).n[n].q]
StateOK(e, R) ==
  /\ Eq("robots", DOMAIN R, DOMAIN Fn(e.st))
  /\ \A id \in DOMAIN R : LET r == R[id]  o == Obs(e, id) IN
       /\ Eq(<<"nodes", id>>, Nodes(r), DOMAIN o.n)
       /\ Chk(<<"robot pose", id, r.pose, o.pose>>, Agrees(r.pose, o.pose))
       /\ \A n \in Nodes(r) : /\ Eq(<<"joint value", id, n>>, r.q[n], o.n[n].q)
                              /\ Chk(<<"pose", id, n, r.gp[n], o.n[n].p>>, Agrees(r.gp[n], o.n[n].p))
(* when a verdict cannot be told, what the code did is taken over *)
Adopted(e) == [id \in DOMAIN rob |-> IF id \in DOMAIN Fn(e.st) THEN Upd(rob[id], ObsQ(e, id), Nodes(rob[id])) ELSE rob[id]]

Times25(v) == <<25*v[1], 25*v[2], 25*v[3]>>
ToLocal(p, v) == Turn(Inv(p), Minus(v, Times25(Pos(p))))
ToGlobal(p, v) == LET t == Turn(p, v) IN <<t[1] + 25*p[10], t[2] + 25*p[11], t[3] + 25*p[12]>>
CloseTo(v, w, t) == \A k \in 1..3 : Ab(v[k] - w[k]) <= t
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the data of one contact; node and object are references *)
PlaceDataOK(R, x, o, c) ==
  LET PX == PoseOf(R, x)  PO == PoseOf(R, o) IN
  \/ PX = Unknown \/ PO = Unknown \/ Touch(R, x, o) # "no"
  \/ /\ Chk(<<"distance of the contact", x, o, c>>, DistIs(c.d, MinOf({ Dist2(b, d) : b \in BoxesAt(R, x), d \in BoxesAt(R, o) })))
     /\ Chk(<<"contact point on the finger", x, c>>, \E b \in BoxesAt(R, x) : In25(b, c.fp))
     /\ Chk(<<"contact point on the object", o, c>>, \E d \in BoxesAt(R, o) : In25(d, c.op))
     /\ LET n == Minus(c.op, c.fp) IN Chk(<<"distance of the contact points", c>>, 4 * Dot(n, n) <= 25 * (c.d + 2) * (c.d + 2) /\ (c.d <= 2 \/ 4 * Dot(n, n) >= 25 * (c.d - 2) * (c.d - 2)))
     /\ Chk(<<"points in the frame of the object", c>>, CloseTo(c.fl, ToLocal(PO, c.fp), 2) /\ CloseTo(c.ol, ToLocal(PO, c.op), 2))
(* the contact point moves on with the finger *)
ApproachOK(R, h, a, s, x, o, c) ==
  LET R2 == Push(R, h, a, s).R  P == PoseOf(R, x)  Q == PoseOf(R2, x) IN
  IF P = Unknown \/ Q = Unknown \/ Touch(R, x, o) # "no" THEN TRUE
  ELSE LET d == Minus(ToGlobal(Q, ToLocal(P, c.fp)), c.fp)  X == Cross(d, c.dir) IN
       Chk(<<"approach direction", c, d>>, L1(d) < 50 \/ (Dot(d, c.dir) > 0 /\ \A k \in 1..3 : Ab(X[k]) <= 10 * L1(d) + 4000))
Pairs(cs) == { <<cs[k].a, cs[k].n, cs[k].o>> : k \in 1..Len(cs) }
Named(con) == { <<c[1], c[2][3], c[3][2]>> : c \in con }
ContactsOK(e, R, con) ==
  /\ Eq("contacts", Named(con), Pairs(e.res.c))
  /\ Eq("number of contacts", Cardinality(con), Len(e.res.c))
  /\ \A k \in 1..Len(e.res.c) : LET c == e.res.c[k]  x == <<"n", e.r, c.n>>  o == <<"o", c.o>> IN
       /\ Chk(<<"contact belongs to the effector", c>>, c.e)
       /\ PlaceDataOK(R, x, o, c)
       /\ ApproachOK(R, H(e), ActIdx(H(e), c.a), e.s, x, o, c)

CloseStep(e, s) ==
  LET w == Close(HId(e), s, About(e)) IN
  IF w.amb THEN /\ Chk("answered", e.ok) /\ rob' = Adopted(e)
           ELSE /\ Chk("answered", e.ok)
                /\ StateOK(e, w.R)
                /\ (e.op = "close") => ContactsOK([e EXCEPT !.s = s], w.R, w.con)
                /\ rob' = w.R

(* verdicts of queries; hits are triples *)
Ref(x, r) == IF x[1] = "n" THEN <<"n", x[2], x[3]>> ELSE x
QueryOK(e, S, swap) ==
  LET v == V3(S)
      name(x) == IF x[1] = "n" THEN x[3] ELSE x[2]
      those(w) == { IF swap THEN <<name(t[2]), name(t[1])>> ELSE <<name(t[1]), name(t[2])>> : t \in { t \in S : t[3] \in w } }
      yes == those({"yes"})  may == those({"yes", "either"})
      got == { <<e.res.c[k].n, e.res.c[k].o>> : k \in 1..Len(e.res.c) }
  IN v = "either" \/ /\ Eq(<<"colliding", e.op>>, v = "yes", e.res.b)
                     /\ e.c => /\ Chk(<<"recorded contacts", yes, got>>, got \subseteq may /\ (IF e.full THEN yes \subseteq got ELSE yes # {} => got # {}))
                     /\ (~e.c) => Eq("recorded", 0, Len(e.res.c))

NodesOf(h) == UNION { { h.act[a].nd[j].n : j \in 1..Len(h.act[a].nd) } : a \in 1..Len(h.act) }
All(h) == NodesOf(h) \cup ToSet_(h.stat) \cup {h.base, h.tcp, h.gcp}

Loaded(e) == [nodes |-> [n \in DOMAIN Fn(e.nodes) |-> e.nodes[n]]]
Props(e) == [n \in DOMAIN Fn(e.prop) |-> Fn(e.prop[n])]
Step(e) ==
  CASE e.op = "reset" -> rob' = E0 /\ hand' = E0 /\ shp' = E0 /\ obj' = E0 /\ oset' = E0
    [] e.op = "robot" -> LET r == NewRobot(Loaded(e), Props(e), [n \in DOMAIN Fn(e.nodes) |-> 0], IdPose)  R == HPut(rob, e.r, r) IN
                         /\ Chk("loaded", e.ok) /\ StateOK(e, R) /\ rob' = R
                         /\ hand' = [x \in DOMAIN hand \cup { e.r \o "/" \o k : k \in DOMAIN Fn(e.eefs) } |->
                                       IF x \in DOMAIN hand THEN hand[x]
                                       ELSE LET k == CHOOSE k \in DOMAIN Fn(e.eefs) : x = e.r \o "/" \o k  d == e.eefs[k] IN
                                            [rob |-> e.r, act |-> d.act, stat |-> d.stat, base |-> d.base, tcp |-> d.tcp, gcp |-> d.gcp, pre |-> [p \in DOMAIN Fn(d.pre) |-> Fn(d.pre[p])]]]
                         /\ shp' = [x \in DOMAIN shp \cup { e.r \o "/" \o k : k \in DOMAIN Fn(e.boxes) } |->
                                       IF x \in DOMAIN shp THEN shp[x] ELSE BoxesOf(e.boxes[CHOOSE k \in DOMAIN Fn(e.boxes) : x = e.r \o "/" \o k])]
                         /\ UNCHANGED <<obj, oset>>
    [] e.op = "newo" -> obj' = HPut(obj, e.x, e.p) /\ shp' = (IF Len(e.m) = 0 THEN shp ELSE HPut(shp, e.x, BoxesOf(e.m))) /\ UNCHANGED <<rob, hand, oset>>
    [] e.op = "move" -> obj' = [obj EXCEPT ![e.x] = e.p] /\ UNCHANGED <<rob, hand, shp, oset>>
    [] e.op = "oset" -> oset' = HPut(oset, e.s, e.xs) /\ UNCHANGED <<rob, hand, shp, obj>>
    [] e.op = "q" -> SetJoint(e.r, e.n, e.v) /\ StateOK(e, rob') /\ Only_rob
    [] e.op = "rpose" -> SetPose(e.r, e.p) /\ StateOK(e, rob') /\ Only_rob
    [] e.op = "mv" -> LET w == Push(rob, H(e), ActIdx(H(e), e.a), e.s) IN
                      /\ Eq("nothing moved", ~w.mv, e.res) /\ StateOK(e, w.R) /\ rob' = w.R /\ Only_rob
    [] e.op = "mvc" -> LET w == Advance(rob, H(e), ActIdx(H(e), e.a), e.s, About(e), {}) IN
                       /\ IF w.amb THEN rob' = Adopted(e)
                          ELSE /\ Eq("nothing moved", ~w.mv, e.res.b) /\ StateOK(e, w.R) /\ ContactsOK(e, w.R, w.con) /\ rob' = w.R
                       /\ Only_rob
    [] e.op = "close" -> CloseStep(e, e.s) /\ Only_rob
    [] e.op = "open" -> CloseStep(e, -e.s) /\ Only_rob
    [] e.op = "pre" -> LET h == H(e) IN
                       /\ Eq("preshape known", e.nm \in DOMAIN h.pre, e.res)
                       /\ (IF e.nm \in DOMAIN h.pre THEN SetMany(e.r, h.pre[e.nm]) ELSE UNCHANGED rob)
                       /\ StateOK(e, rob') /\ Only_rob
    [] e.op = "rpre" -> hand' = [hand EXCEPT ![HId(e)].pre = HPut(@, e.nm, Fn(e.m))] /\ UNCHANGED <<rob, shp, obj, oset>>
    [] e.op = "hito" -> QueryOK(e, { <<x, o, Touch(rob, x, o)>> : x \in ActNodes(H(e), ActIdx(H(e), e.a), e.mode), o \in IF e.mode = 0 THEN {} ELSE About(e) }, FALSE) /\ Still
    [] e.op = "hitn" -> LET y == <<"n", e.r2, e.n>> IN QueryOK(e, { <<x, y, Touch(rob, x, y)>> : x \in ActNodes(H(e), ActIdx(H(e), e.a), e.mode) }, FALSE) /\ Still
    [] e.op = "hita" -> LET g == hand[e.r2 \o "/" \o e.e2] IN QueryOK(e, HitsActor(rob, H(e), ActIdx(H(e), e.a), g, ActIdx(g, e.b)), TRUE) /\ Still
    [] e.op = "hite" -> LET h == H(e)  a == ActIdx(h, e.a)  g == hand[e.r2 \o "/" \o e.e2]
                            A == UNION { HitsActor(rob, h, a, g, b) : b \in { b \in 1..Len(g.act) : g.act[b].nm # e.a } }
                            S == HitsStat(rob, h, a, g)
                            sw == { <<t[2], t[1], t[3]>> : t \in A }
                        IN QueryOK(e, sw \cup S, FALSE) /\ Still
    [] e.op = "stat" -> LET h == H(e)  o == <<"o", e.o>>
                            P == { x \in StatNodes(h) : HasModel(x) }
                            Dst(x) == MinOf({ Dist2(b, d) : b \in BoxesAt(rob, x), d \in BoxesAt(rob, o) })
                            known == \A x \in P : PoseOf(rob, x) # Unknown /\ Touch(rob, x, o) = "no" /\ Dst(x) # e.d * e.d
                        IN /\ IF ~known THEN TRUE
                              ELSE /\ Eq("static parts near the object", { x[3] : x \in { x \in P : Dst(x) < e.d * e.d } }, { e.res.c[k].n : k \in 1..Len(e.res.c) })
                                   /\ Eq("number of contacts", Len(e.res.c), e.res.b)
                                   /\ \A k \in 1..Len(e.res.c) : LET c == e.res.c[k] IN
                                        /\ Chk(<<"contact belongs to the effector", c>>, c.e /\ c.a = "" /\ c.o = e.o)
                                        /\ PlaceDataOK(rob, <<"n", e.r, c.n>>, o, c)
                                        /\ Chk(<<"approach direction", c>>, CloseTo(c.dir, <<-1000*e.v[1], -1000*e.v[2], -1000*e.v[3]>>, 1))
                           /\ Still
    [] e.op = "info" -> LET h == H(e)  r == rob[e.r]  A == All(h)  jn == { n \in A : N(r, n).typ # "fixed" } IN
                        /\ Eq("all nodes", A, ToSet_(e.res.all)) /\ Eq("number of nodes", Cardinality(A), Len(e.res.all))
                        /\ Eq("nodes of the effector", A, ToSet_(e.res.has))
                        /\ Eq("configuration", [n \in jn |-> r.q[n]], Fn(e.res.cfg))
                        /\ Eq("scene objects", NodesOf(h) \cup ToSet_(h.stat), ToSet_(e.res.set))
                        /\ Eq("preshapes", DOMAIN h.pre, ToSet_(e.res.pre))
                        /\ Eq("sufficient", (NodesOf(h) \cup {h.base, h.tcp, h.gcp}) \subseteq ToSet_(e.ns), e.res.suff)
                        /\ Still
    [] e.op = "eefrob" -> LET r == rob[e.r]  h == H(e)  T == Sub(r, h.base)
                              nd == [n \in T |-> IF n = h.base THEN [N(r, n) EXCEPT !.par = "", !.loc = IF Obs(e, e.x).n[n].loc = Unknown THEN @ ELSE Obs(e, e.x).n[n].loc] ELSE N(r, n)]
                              r2 == NewRobot([nodes |-> nd], [n \in T \cap DOMAIN r.prop |-> r.prop[n]], [n \in T |-> r.q[n]], IdPose)
                              R == HPut(rob, e.x, r2)
                          IN /\ Chk("created", e.ok) /\ rob' = R /\ StateOK(e, R)
                             /\ hand' = HPut(hand, e.x \o "/" \o e.e, [h EXCEPT !.rob = e.x])
                             /\ shp' = [k \in DOMAIN shp \cup { e.x \o "/" \o n : n \in { n \in T : (e.r \o "/" \o n) \in DOMAIN shp } } |->
                                          IF k \in DOMAIN shp THEN shp[k] ELSE shp[e.r \o "/" \o (CHOOSE n \in T : k = e.x \o "/" \o n)]]
                             /\ UNCHANGED <<obj, oset>>

TInit == i = 1 /\ rob = E0 /\ hand = E0 /\ shp = E0 /\ obj = E0 /\ oset = E0
TNext == /\ i <= Len(Log)
         /\ Step(Log[i])
         /\ i' = i + 1
=============================================================================
