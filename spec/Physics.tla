------------------------------- MODULE Physics -------------------------------
(* The physics world: which objects and robots it contains, which pairs may    *)
(* collide, what is linked to what, where everything is and how far simulated  *)
(* time has come.  The world is one value ph:                                  *)
(*   ob    free object -> [t type, h half extents, p pose, fl floor]          *)
(*   rb    robot -> [pose, nodes: node -> [par, loc, mdl, typ, h, ign]]        *)
(*   wr    wrapper -> [r robot, bp where its bodies were put, at attachments,  *)
(*                     act joint -> [m mode, t, v, q targets]]                 *)
(*   reg   free objects of the world in the order of their addition            *)
(*   regR  wrappers of the world                                               *)
(*   off, off1   disabled pairs (sets of two) and objects                      *)
(*   t, left     simulated time and the part of it not yet simulated, 1/1024 s *)
(*   cb    callbacks; hot: something may be moving; mov: bodies whose place    *)
(*         is not known                                                        *)
EXTENDS Boxes, TLC
VARIABLE ph

P0 == [x \in {} |-> 0]
Empty == [ob |-> P0, rb |-> P0, wr |-> P0, reg |-> <<>>, regR |-> <<>>, off |-> {}, off1 |-> {}, t |-> 0, left |-> 0, cb |-> <<>>, hot |-> FALSE, mov |-> {}]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
SetOf(s) == { s[k] : k \in 1..Len(s) }
Drop(s, x) == SelectSeq(s, LAMBDA y : y # x)
STATIC == 0  KINEMATIC == 1  DYNAMIC == {2, 3}     \* 3: not specified, simulated

----------------------------------------------------------------------------
(* robots and their bodies *)
Nid(w, n) == w \o "/" \o n
Robot(s, w) == s.rb[s.wr[w].r]
RootOf(r) == CHOOSE n \in DOMAIN r.nodes : r.nodes[n].par = ""
RECURSIVE Rel(_, _)
Rel(r, n) == IF r.nodes[n].par = "" THEN r.nodes[n].loc ELSE Mul(Rel(r, r.nodes[n].par), r.nodes[n].loc)
(* the next node with a model above n, the root when there is none *)
RECURSIVE BodyAbove(_, _)
BodyAbove(r, n) == LET p == r.nodes[n].par IN IF p = "" THEN RootOf(r) ELSE IF r.nodes[p].mdl THEN p ELSE BodyAbove(r, p)
(* the joint between a body and the one above it; its own node when fixed *)
RECURSIVE JointAbove(_, _)
JointAbove(r, n) == LET p == r.nodes[n].par IN
                    IF p = "" THEN "" ELSE IF r.nodes[p].mdl THEN "" ELSE IF r.nodes[p].typ # "fixed" THEN p ELSE JointAbove(r, p)
JointOf(r, n) == IF r.nodes[n].typ # "fixed" THEN n ELSE LET j == JointAbove(r, n) IN IF j = "" THEN n ELSE j
Models(r) == { n \in DOMAIN r.nodes : r.nodes[n].mdl }
Links(r) == { [a |-> BodyAbove(r, n), b |-> n, j |-> JointOf(r, n)] : n \in { n \in Models(r) : BodyAbove(r, n) # n } }
Bodies(r) == Models(r) \cup { l.a : l \in Links(r) } \cup UNION { SetOf(r.nodes[n].ign) : n \in Models(r) }
Joints(r) == { l.j : l \in Links(r) }            \* nodes a link is known by
Moving(r) == { j \in Joints(r) : r.nodes[j].typ # "fixed" }
NodeIds(s, w) == { Nid(w, n) : n \in Bodies(Robot(s, w)) }
LinkPairs(s, w) == { {Nid(w, l.a), Nid(w, l.b)} : l \in Links(Robot(s, w)) }
AttPairs(s, w) == { {s.wr[w].at[k].a, s.wr[w].at[k].x} : k \in 1..Len(s.wr[w].at) }

Known(s) == DOMAIN s.ob \cup UNION { NodeIds(s, w) : w \in DOMAIN s.wr }
InWorld(s) == SetOf(s.reg) \cup UNION { NodeIds(s, w) : w \in SetOf(s.regR) }
(* how many constraints join two bodies *)
Joined(s, p) == Cardinality({ w \in SetOf(s.regR) : p \in LinkPairs(s, w) })
                + Cardinality({ <<w, k>> \in { <<w, k>> \in SetOf(s.regR) \X (1..20) : k <= Len(s.wr[w].at) } : {s.wr[w].at[k].a, s.wr[w].at[k].x} = p })
Constraints(s) == UNION { LinkPairs(s, w) \cup AttPairs(s, w) : w \in SetOf(s.regR) }
Allowed(s, x, y) == x \notin s.off1 /\ y \notin s.off1 /\ {x, y} \notin s.off

IsNode(s, x) == x \notin DOMAIN s.ob
OwnerOf(s, x) == CHOOSE w \in DOMAIN s.wr : x \in NodeIds(s, w)
NodeOf(s, x) == LET w == OwnerOf(s, x) IN CHOOSE n \in Bodies(Robot(s, w)) : Nid(w, n) = x
(* where a body is, and where the thing it stands for is *)
BodyAt(s, x) == IF x \in s.mov THEN Unknown ELSE IF IsNode(s, x) THEN LET w == OwnerOf(s, x) IN Mul(s.wr[w].bp, Rel(Robot(s, w), NodeOf(s, x))) ELSE s.ob[x].p
ThingAt(s, x) == IF x \in s.mov THEN Unknown ELSE IF IsNode(s, x) THEN LET w == OwnerOf(s, x) IN Mul(Robot(s, w).pose, Rel(Robot(s, w), NodeOf(s, x))) ELSE s.ob[x].p
TypeOf(s, x) == IF IsNode(s, x) THEN 2 ELSE s.ob[x].t
HalfOfBody(s, x) == IF IsNode(s, x) THEN Robot(s, OwnerOf(s, x)).nodes[NodeOf(s, x)].h ELSE s.ob[x].h
Solid(s, x) == HalfOfBody(s, x) # <<>>

(* do two solid boxes overlap?  collision margins may make a gap of some mm disappear *)
Slack == 3
Overlap(s, x, y) ==
  IF ~Solid(s, x) \/ ~Solid(s, y) THEN "no" ELSE
  LET p == BodyAt(s, x)  q == BodyAt(s, y) IN
  IF p = Unknown \/ q = Unknown THEN "either" ELSE
  LET box(h, m) == Place(m, [h |-> h, a |-> <<25,0,0,0,25,0,0,0,25>>, c |-> <<0,0,0>>])
      b == box(HalfOfBody(s, x), p)  d == box(HalfOfBody(s, y), q)
      gap(k) == Mx(Lo(b, k) - Hi(d, k), Lo(d, k) - Hi(b, k))
      m == CHOOSE v \in { gap(k) : k \in 1..3 } : \A k \in 1..3 : gap(k) <= v
  IN IF m > Slack THEN "no" ELSE IF m < -Slack THEN "yes" ELSE "either"
(* a contact between two things in the world *)
Contact(s, x, y) ==
  IF ~Allowed(s, x, y) \/ {x, y} \in Constraints(s) THEN "no"     \* bodies that are joined never collide
  ELSE IF TypeOf(s, x) \notin DYNAMIC /\ TypeOf(s, y) \notin DYNAMIC THEN (IF Overlap(s, x, y) = "no" THEN "no" ELSE "either")
  ELSE Overlap(s, x, y)

----------------------------------------------------------------------------
(* operations; each gives the new world *)
NewObject(s, x, t, h, p) == [s EXCEPT !.ob = Put(@, x, [t |-> t, h |-> h, p |-> p, fl |-> FALSE])]
(* nothing that was switched for x before holds for a new one of that name *)
Renew(s, x) == [s EXCEPT !.off = { q \in @ : x \notin q }, !.off1 = @ \ {x}]
NewRobotP(s, r, nodes) == [s EXCEPT !.rb = Put(@, r, [pose |-> IdPose, nodes |-> nodes])]
Wrap(s, w, r) ==
  LET R == s.rb[r] IN
  [s EXCEPT !.wr = Put(@, w, [r |-> r, bp |-> R.pose, at |-> <<>>, act |-> [j \in Moving(R) |-> [m |-> {"p"}, t |-> 0, v |-> 0, q |-> 0]]]),
            !.off = @ \cup { {Nid(w, l.a), Nid(w, l.b)} : l \in Links(R) }
                      \cup { {Nid(w, n), Nid(w, k)} : <<n, k>> \in { <<n, k>> \in Models(R) \X DOMAIN R.nodes : k \in SetOf(R.nodes[n].ign) /\ k # n } }]
Add(s, x) == IF x \in SetOf(s.reg) THEN s ELSE [s EXCEPT !.reg = Append(@, x)]
Take(s, x) == [s EXCEPT !.reg = Drop(@, x)]
MayAddRobot(s, w) == \A v \in SetOf(s.regR) : v = w \/ s.wr[v].r # s.wr[w].r
AddRobot(s, w) == IF w \in SetOf(s.regR) \/ ~MayAddRobot(s, w) THEN s
                  ELSE [s EXCEPT !.regR = Append(@, w), !.off = @ \cup LinkPairs(s, w) \cup AttPairs(s, w)]
RemoveRobot(s, w) == IF w \notin SetOf(s.regR) THEN s
                     ELSE [s EXCEPT !.regR = Drop(@, w), !.off = @ \ (LinkPairs(s, w) \cup AttPairs(s, w))]
Floor(s, f, p, u, h) == [s EXCEPT !.ob = Put(@, f, [t |-> STATIC, h |-> h, p |-> Trans(p), fl |-> TRUE]), !.reg = Append(@, f)]
Off(s, x, y) == [s EXCEPT !.off = @ \cup {{x, y}}]
On(s, x, y) == [s EXCEPT !.off = @ \ {{x, y}}]
Off1(s, x) == [s EXCEPT !.off1 = @ \cup {x}]
On1(s, x) == [s EXCEPT !.off1 = @ \ {x}]
SelfPairs(s, w) == { {x, y} : <<x, y>> \in { <<x, y>> \in NodeIds(s, w) \X NodeIds(s, w) : x # y } }
Self(s, w, on) == [s EXCEPT !.off = IF on THEN @ \ SelfPairs(s, w) ELSE @ \cup SelfPairs(s, w)]

(* the body an object held by a node is joined to; "" when there is none *)
RECURSIVE Holder(_, _)
Holder(r, n) == IF n \in Bodies(r) THEN n ELSE IF r.nodes[n].par = "" THEN "" ELSE Holder(r, r.nodes[n].par)
CanAttach(s, w, n) == n \in DOMAIN Robot(s, w).nodes /\ Holder(Robot(s, w), n) # ""
Attach(s, w, n, x) ==
  IF ~CanAttach(s, w, n) THEN s ELSE
  LET a == Nid(w, Holder(Robot(s, w), n)) IN
  [s EXCEPT !.wr[w].at = Append(@, [a |-> a, x |-> x, rel |-> Mul(Inv(BodyAt(s, a)), BodyAt(s, x))]), !.off = @ \cup {{a, x}}]
Detach(s, w, x) ==
  LET S == { s.wr[w].at[k].a : k \in { k \in 1..Len(s.wr[w].at) : s.wr[w].at[k].x = x } } IN
  [s EXCEPT !.wr[w].at = SelectSeq(@, LAMBDA y : y.x # x), !.off = @ \ { {a, x} : a \in S }]
Pose(s, x, p) == [s EXCEPT !.ob[x].p = p, !.mov = @ \ {x}]
Position(s, x, v) == IF x \in s.mov THEN s ELSE [s EXCEPT !.ob[x].p = SetPos(@, v)]
PoseRobot(s, w, p) == [s EXCEPT !.rb[s.wr[w].r].pose = p, !.wr[w].bp = p]
Type(s, x, t) == [s EXCEPT !.ob[x].t = t]

(* actuation *)
IsJoint(s, w, n) == n \in Moving(Robot(s, w))
Target(s, w, n) == IF n \in DOMAIN s.wr[w].act THEN s.wr[w].act[n].t ELSE 0
SetAct(s, w, n, a) == [s EXCEPT !.wr[w].act = Put(@, n, a)]
ActPos(s, w, n, t) == IF IsJoint(s, w, n) THEN SetAct(s, w, n, [m |-> {"p"}, t |-> t, v |-> 0, q |-> 0]) ELSE s
ActPosVel(s, w, n, t, v) == SetAct(s, w, n, [m |-> {"p", "v"}, t |-> t, v |-> v, q |-> 0])
(* a velocity starts at the present value; no velocity holds the last target *)
ActVel(s, w, n, v, now) == IF IsJoint(s, w, n) THEN SetAct(s, w, n, [m |-> {"v"}, t |-> IF v = 0 /\ n \in DOMAIN s.wr[w].act THEN Target(s, w, n) ELSE now, v |-> v, q |-> 0]) ELSE s
ActTorque(s, w, n, q) == SetAct(s, w, n, [m |-> {"q"}, t |-> 0, v |-> 0, q |-> q])
ActNone(s, w, n) == [s EXCEPT !.wr[w].act = [j \in DOMAIN @ \ {n} |-> @[j]]]
ActModes(s, w, m) == [s EXCEPT !.wr[w].act = [j \in DOMAIN @ |-> [@[j] EXCEPT !.m = m]]]

(* one call of stepSimulation: whole steps are taken from the time that is due, at most k of them *)
Whole(s, dt, k, f) == IF k = 0 THEN (IF dt = 0 THEN 0 ELSE 1) ELSE (s.left + dt) \div f
Taken(s, dt, k, f) == LET n == Whole(s, dt, k, f) IN IF k = 0 THEN n ELSE Mn(n, k)
Size(k, f, dt) == IF k = 0 THEN dt ELSE f
Quiet(s) ==
  /\ ~s.hot
  /\ \A w \in SetOf(s.regR) :
       /\ \A j \in DOMAIN s.wr[w].act : LET a == s.wr[w].act[j] IN a.m = {} \/ (a.t = 0 /\ a.v = 0 /\ a.q = 0)
       /\ \A k \in 1..Len(s.wr[w].at) : LET c == s.wr[w].at[k] IN c.rel # Unknown /\ Mul(Inv(BodyAt(s, c.a)), BodyAt(s, c.x)) = c.rel
       /\ s.wr[w].bp = Robot(s, w).pose
  /\ \A x, y \in InWorld(s) : x = y \/ TypeOf(s, x) \notin DYNAMIC \/ Contact(s, x, y) = "no"
StepTime(s, dt, k, f) ==
  LET n == Taken(s, dt, k, f)  d == Size(k, f, dt) IN
  [s EXCEPT !.t = @ + dt,
            !.left = IF k = 0 THEN 0 ELSE (s.left + dt) - Whole(s, dt, k, f) * f,
            !.wr = [w \in DOMAIN @ |-> IF w \notin SetOf(s.regR) THEN @[w]
                                       ELSE [@[w] EXCEPT !.act = [j \in DOMAIN @ |-> LET a == @[j] IN
                                               IF "v" \in a.m /\ "p" \notin a.m /\ "q" \notin a.m /\ IsJoint(s, w, j) THEN [a EXCEPT !.t = @ + n * ((a.v * d) \div 1024)] ELSE a]]]]
(* what is not at rest goes somewhere *)
StepWorld(s, dt, k, f) ==
  LET u == StepTime(s, dt, k, f)  n == Taken(s, dt, k, f) IN
  IF Quiet(s) \/ (n = 0 /\ ~s.hot) THEN u ELSE [u EXCEPT !.hot = TRUE, !.mov = @ \cup SetOf(s.reg) \cup UNION { NodeIds(s, w) : w \in { w \in DOMAIN s.wr : \E v \in SetOf(s.regR) : s.wr[v].r = s.wr[w].r } }]
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n = 0 THEN <<>> ELSE c \o Repeat(c, n - 1)
Calls(s, dt, k, f) == Repeat(s.cb, Taken(s, dt, k, f))

----------------------------------------------------------------------------
(* what every history keeps *)
WorldOK(s) ==
  /\ SetOf(s.reg) \subseteq DOMAIN s.ob /\ SetOf(s.regR) \subseteq DOMAIN s.wr
  /\ Len(s.reg) = Cardinality(SetOf(s.reg)) /\ Len(s.regR) = Cardinality(SetOf(s.regR))
  /\ \A v, w \in SetOf(s.regR) : v = w \/ s.wr[v].r # s.wr[w].r
  /\ \A q \in s.off : q \subseteq Known(s) /\ Cardinality(q) = 2
  /\ \A w \in SetOf(s.regR) : LinkPairs(s, w) \subseteq Constraints(s)
  /\ \A w \in SetOf(s.regR) : \A q \in LinkPairs(s, w) : q \subseteq InWorld(s) /\ Joined(s, q) >= 1
  /\ \A x, y \in Known(s) : Allowed(s, x, y) = Allowed(s, y, x)
=============================================================================
