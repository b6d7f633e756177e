------------------------------- MODULE Forest -------------------------------
(* Scene objects, robots, robot nodes and sensors attached to each other       *)
(* (VirtualRobot/SceneObject, Robot, RobotNode, Sensor, RobotFactory::attach). *)
(*                                                                             *)
(* el: id -> [k (obj, node, sens, robot), rob, nm, par, ch, gp, vp, cp, uv,    *)
(*            uc, held, loc, typ, ax, q]                                       *)
(* The parent pointer does not own; the children pointers do.  An element      *)
(* lives as long as the test holds it (held) or a living parent has it.        *)
EXTENDS Lattice, FiniteSets, TLC

VARIABLE el

Ids == DOMAIN el
E0 == [x \in {} |-> 0]

----------------------------------------------------------------------------
(* structure *)
RECURSIVE Below(_, _)
Below(F_, x) == {x} \cup UNION { Below(F_, c) : c \in F_[x].ch }
Alive(F_) == UNION { Below(F_, x) : x \in { y \in DOMAIN F_ : F_[y].held } }
RobotOf(F_, x) == F_[x].rob
(* forget what nobody owns any more *)
Collect(F_) == LET A == Alive(F_) IN [x \in A |-> IF F_[x].par \in A THEN F_[x] ELSE [F_[x] EXCEPT !.par = ""]]
Cut(F_, x) == IF F_[x].par = "" THEN F_ ELSE [F_ EXCEPT ![F_[x].par].ch = @ \ {x}, ![x].par = ""]
Join(F_, p, x) == [F_ EXCEPT ![p].ch = @ \cup {x}, ![x].par = p]

----------------------------------------------------------------------------
(* poses *)
Rel(n) == CASE n.k = "sens" -> n.loc
            [] n.k = "node" -> Mul(n.loc, CASE n.typ = "rev" -> Rot(n.ax, n.q)
                                            [] n.typ = "pris" -> Trans(<<n.ax[1]*n.q, n.ax[2]*n.q, n.ax[3]*n.q>>)
                                            [] OTHER -> IdPose)
            [] OTHER -> IdPose
Put1(n, p) == [n EXCEPT !.gp = p, !.vp = IF n.uv THEN p ELSE n.vp, !.cp = IF n.uc THEN p ELSE n.cp]

(* an update of x with the pose of what carries it: everything below follows *)
RECURSIVE Update(_, _, _)
Update(F_, x, base) ==
  LET p == Mul(base, Rel(F_[x]))
      RECURSIVE Kids(_, _)
      Kids(G, S) == IF S = {} THEN G ELSE LET c == CHOOSE c \in S : TRUE IN Kids(Update(G, c, p), S \ {c})
  IN Kids([F_ EXCEPT ![x] = Put1(F_[x], p)], F_[x].ch)

(* x is refreshed: a node or sensor from its parent, anything else from itself *)
Refresh(F_, x) == IF F_[x].k \in {"node", "sens"} THEN Update(F_, x, F_[F_[x].par].gp) ELSE Update(F_, x, F_[x].gp)

----------------------------------------------------------------------------
(* operations *)
CanAttach(F_, p, x) == /\ p # x /\ F_[x].par = "" /\ p \notin Below(F_, x)
                       /\ \A c \in F_[p].ch : F_[c].nm # F_[x].nm
Attach(p, x) == IF x \in el[p].ch \/ ~CanAttach(el, p, x) THEN UNCHANGED el ELSE el' = Join(el, p, x)
AttachRes(p, x) == p # x /\ (x \in el[p].ch \/ CanAttach(el, p, x))
Detach(p, x) == IF x \in el[p].ch THEN el' = Collect(Cut(el, x)) ELSE UNCHANGED el
CanMove(x) == el[x].k = "obj" /\ el[x].par = ""
Move(x, p) == IF CanMove(x) THEN el' = Update(el, x, p) ELSE UNCHANGED el
MoveRobot(r, p) == el' = Update(el, r, p)
SetJoint(n, v) == LET G == [el EXCEPT ![n].q = v] IN el' = Refresh(G, n)
RefreshAll(x) == el' = Refresh(el, x)
New(id, nm, p) ==
  el' = [x \in Ids \cup {id} |-> IF x = id THEN [k |-> "obj", rob |-> "", nm |-> nm, par |-> "", ch |-> {}, gp |-> p, vp |-> p, cp |-> p,
            uv |-> TRUE, uc |-> TRUE, held |-> TRUE, loc |-> IdPose, typ |-> "fixed", ax |-> <<0,0,0>>, q |-> 0] ELSE el[x]]
Clone(x, id, nm) ==
  el' = [y \in Ids \cup {id} |-> IF y = id THEN [el[x] EXCEPT !.nm = nm, !.par = "", !.ch = {}, !.held = TRUE, !.uc = TRUE,
            !.vp = IF el[x].uv THEN el[x].gp ELSE Unknown, !.cp = el[x].gp] ELSE el[y]]
Drop(x) == el' = Collect([el EXCEPT ![x].held = FALSE])
Rename(x, nm) == el' = [el EXCEPT ![x].nm = nm]
SetUpV(x, b) == el' = [el EXCEPT ![x].uv = b, ![x].uc = IF b THEN TRUE ELSE @]
SetUpC(x, b) == el' = [el EXCEPT ![x].uc = b]

(* an object becomes a fixed node of a robot *)
CanFix(r, n, x) == LET id == r \o "/" \o el[x].nm IN
  id \notin Ids /\ \A c \in el[n].ch : el[c].nm # el[x].nm
Fix(r, n, x, t) ==
  LET id == r \o "/" \o el[x].nm
      G == [y \in Ids \cup {id} |-> IF y = id THEN [el[x] EXCEPT !.k = "node", !.rob = r, !.par = "", !.ch = {}, !.held = FALSE, !.loc = t,
                !.uv = TRUE, !.uc = TRUE, !.vp = Unknown, !.cp = Unknown, !.typ = "fixed"] ELSE el[y]]
  IN IF CanFix(r, n, x) THEN el' = Update(Join(G, n, id), id, el[n].gp) ELSE UNCHANGED el
(* ... and is taken off again, with everything below *)
CanUnfix(r, n) == el[n].par \in Ids /\ el[n].k = "node" /\ el[el[n].par].k # "robot" /\ el[n].rob = r
Unfix(r, n) == IF CanUnfix(r, n) THEN el' = Collect(Cut(el, n)) ELSE UNCHANGED el
(* the robot is given up; what the test holds survives where it is *)
Delete(r) == el' = Collect([el EXCEPT ![r].held = FALSE])

(* a loaded robot: nodes = name -> [typ, ax, loc, root, par, sens] *)
RobotEls(r, nodes, par) ==
  LET nid(n) == r \o "/" \o n
      base == [k |-> "node", rob |-> r, nm |-> "", par |-> "", ch |-> {}, gp |-> IdPose, vp |-> Unknown, cp |-> Unknown,
               uv |-> TRUE, uc |-> TRUE, held |-> FALSE, loc |-> IdPose, typ |-> "fixed", ax |-> <<0,0,0>>, q |-> 0]
      ns == { nid(n) : n \in DOMAIN nodes }
      ss(n) == { nid(n) \o "/" \o s : s \in DOMAIN nodes[n].sens \ {"_"} }
      all == {r} \cup ns \cup UNION { ss(n) : n \in DOMAIN nodes }
      rt == CHOOSE n \in DOMAIN nodes : nodes[n].root
  IN [x \in all |->
       IF x = r THEN [base EXCEPT !.k = "robot", !.nm = r, !.ch = {nid(rt)}, !.held = TRUE]
       ELSE IF x \in ns THEN LET n == CHOOSE m \in DOMAIN nodes : nid(m) = x IN
          [base EXCEPT !.nm = n, !.par = IF nodes[n].root THEN r ELSE nid(par[n]), !.loc = nodes[n].loc, !.typ = nodes[n].typ, !.ax = nodes[n].ax,
             !.ch = { nid(m) : m \in { m \in DOMAIN nodes : ~nodes[m].root /\ par[m] = n } } \cup ss(n)]
       ELSE LET n == CHOOSE m \in DOMAIN nodes : x \in ss(m)
                s == CHOOSE s \in DOMAIN nodes[n].sens : nid(n) \o "/" \o s = x
            IN [base EXCEPT !.k = "sens", !.nm = s, !.par = nid(n), !.loc = nodes[n].sens[s]]]
Load(r, nodes, par) ==
  LET R == RobotEls(r, nodes, par)
      G == [x \in Ids \cup DOMAIN R |-> IF x \in DOMAIN R THEN R[x] ELSE el[x]]
  IN el' = Update(G, r, IdPose)

HasChild(F_, p, x, rec) == x # p /\ (x \in F_[p].ch \/ (rec /\ x \in Below(F_, p) \ {p}))
HasChildNamed(F_, p, nm, rec) == \E x \in (IF rec THEN Below(F_, p) \ {p} ELSE F_[p].ch) : F_[x].nm = nm

----------------------------------------------------------------------------
(* the properties *)
(* parent and child agree, and no element carries itself *)
Tree == \A x \in Ids : /\ el[x].par # "" => el[x].par \in Ids /\ x \in el[el[x].par].ch
                       /\ \A c \in el[x].ch : c \in Ids /\ el[c].par = x
RECURSIVE Up(_, _)
Up(x, k) == IF k = 0 THEN FALSE ELSE el[x].par = "" \/ Up(el[x].par, k-1)
Acyclic == \A x \in Ids : Up(x, Cardinality(Ids))
(* as long as nothing is renamed *)
UniqueNames == \A x \in Ids : \A a, b \in el[x].ch : el[a].nm = el[b].nm => a = b
Owned == Ids = Alive(el)
=============================================================================
