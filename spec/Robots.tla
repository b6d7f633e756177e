------------------------------- MODULE Robots -------------------------------
(* A population of robots: kinematic trees of fixed, revolute and prismatic    *)
(* nodes with limits, limitless joints and propagated joints, updated through  *)
(* every setter of the library.  Joint values are degrees / millimetres.       *)
(*                                                                             *)
(* st.nodes[n]: par, typ, ax, lo, hi, free (limitless), enf, off, loc          *)
(* Poses are stored, not derived: what makes them consistent is that every     *)
(* update recomputes them, and exactly that is the property InvFK.             *)
EXTENDS Lattice, FiniteSets, TLC

VARIABLE rob      \* robot id -> robot record

----------------------------------------------------------------------------
(* structure *)
Nodes(r)      == DOMAIN r.st.nodes
N(r, n)       == r.st.nodes[n]
IsJoint(r, n) == N(r, n).typ # "fixed"
Joints(r)     == { n \in Nodes(r) : IsJoint(r, n) }
Children(r, n) == { m \in Nodes(r) : N(r, m).par = n }

RECURSIVE Sub(_, _)
Sub(r, n) == {n} \cup UNION { Sub(r, m) : m \in Children(r, n) }
RECURSIVE Depth(_, _)
Depth(r, n) == IF N(r, n).par = "" THEN 0 ELSE 1 + Depth(r, N(r, n).par)
IsAncestor(r, a, n) == a # n /\ n \in Sub(r, a)     \* a strictly above n

(* propagated joints: prop[n] = function target -> factor (integers) *)
Prop(r, n) == IF n \in DOMAIN r.prop THEN r.prop[n] ELSE [x \in {} |-> 0]
Sources(r, t) == { s \in Nodes(r) : t \in DOMAIN Prop(r, s) }

----------------------------------------------------------------------------
(* joint values *)
Clamp(lo, hi, v) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

(* the values a joint may hold after v was written.  A limitless joint holds   *)
(* an equivalent angle in its interval (both ends of a full-turn interval are  *)
(* the same angle).                                                            *)
Stored(nd, v) ==
  IF nd.free THEN { x \in {v + 360*k : k \in -16..16} : nd.lo <= x /\ x <= nd.hi }
  ELSE IF nd.enf THEN { Clamp(nd.lo, nd.hi, v) } ELSE { v }
WrapTo(nd, v) ==   \* the representative in (lo, hi] nearest to where it came from
  IF Stored(nd, v) = {} THEN v ELSE
  IF v \in Stored(nd, v) THEN v ELSE
  IF v > nd.hi THEN CHOOSE x \in Stored(nd, v) : \A y \in Stored(nd, v) : y <= x
  ELSE CHOOSE x \in Stored(nd, v) : \A y \in Stored(nd, v) : y >= x
Store(nd, v) == IF nd.free THEN WrapTo(nd, v)
                ELSE IF nd.enf THEN Clamp(nd.lo, nd.hi, v) ELSE v
SameAngle(nd, a, b) == a = b \/ (nd.free /\ (a - b) % 360 = 0)

(* signed shortest difference of angles *)
ShortDelta(d) == LET m == d % 360 IN IF m > 180 THEN m - 360 ELSE m

----------------------------------------------------------------------------
(* kinematics *)
Motion(nd, v) ==
  CASE nd.typ = "rev"  -> Rot(nd.ax, v + nd.off)
    [] nd.typ = "pris" -> Trans(<<nd.ax[1]*(v+nd.off), nd.ax[2]*(v+nd.off), nd.ax[3]*(v+nd.off)>>)
    [] OTHER -> IdPose
Link(nd, v) == Mul(nd.loc, Motion(nd, v))

RECURSIVE FK(_, _, _)
FK(r, n, top) ==
  LET nd == N(r, n) IN
  Mul(IF nd.par = "" THEN top ELSE FK(r, nd.par, top), Link(nd, r.q[n]))

(* what an update that reaches the nodes T (closed under descendants) does:    *)
(* dependents of reached sources take factor * value; a dependent that changes *)
(* is reached itself, with everything below it.                                *)
RECURSIVE Drive(_, _, _)
Drive(r, T, k) ==
  LET tgt == UNION { DOMAIN Prop(r, s) : s \in T } \cap Nodes(r)
      nq  == TLCEval([n \in Nodes(r) |->
                IF n \in tgt /\ Sources(r, n) \cap T # {}
                THEN LET s == CHOOSE s \in Sources(r, n) \cap T : TRUE
                     IN Store(N(r, n), r.q[s] * Prop(r, s)[n])
                ELSE r.q[n]])
      chg == { n \in Nodes(r) : nq[n] # r.q[n] }
      T2  == T \cup UNION { Sub(r, n) : n \in chg }
  IN IF (chg = {} /\ T2 = T) \/ k = 0 THEN <<r, T>> ELSE Drive([r EXCEPT !.q = nq], T2, k-1)

(* recompute stored poses of T, parents first *)
RECURSIVE Repose(_, _, _)
Repose(r, T, d) ==
  LET lvl == { n \in T : Depth(r, n) = d }
      g(n) == LET nd == N(r, n) IN Mul(IF nd.par = "" THEN r.pose ELSE r.gp[nd.par], Link(nd, r.q[n]))
      r2 == [r EXCEPT !.gp = TLCEval([n \in Nodes(r) |-> IF n \in lvl THEN g(n) ELSE r.gp[n]])]
  IN IF T = {} THEN r ELSE Repose(r2, T \ lvl, d+1)

Update(r, T0) ==
  LET dr == Drive(r, T0, Cardinality(Nodes(r)) + 1)
      r1 == Repose(dr[1], dr[2], 0)
      T  == dr[2]
  IN [r1 EXCEPT !.ok = [n \in Nodes(r) |-> r.ok[n] \/ n \in T],
                !.vp = [n \in Nodes(r) |-> IF n \in T /\ r.uv[n] THEN r1.gp[n] ELSE r.vp[n]],
                !.cp = [n \in Nodes(r) |-> IF n \in T /\ r.uc[n] THEN r1.gp[n] ELSE r.cp[n]],
                !.vf = [n \in Nodes(r) |-> IF n \in T THEN r.uv[n] ELSE r.vf[n]],
                !.cf = [n \in Nodes(r) |-> IF n \in T THEN r.uc[n] ELSE r.cf[n]]]

(* write values without updating poses: vals = function node -> value *)
Write(r, vals) ==
  LET nq == TLCEval([n \in Nodes(r) |-> IF n \in DOMAIN vals THEN Store(N(r, n), vals[n]) ELSE r.q[n]])
  IN [r EXCEPT !.q = nq, !.ok = [n \in Nodes(r) |-> r.ok[n] /\ nq[n] = r.q[n]]]

Root(r) == CHOOSE n \in Nodes(r) : N(r, n).par = ""

(* a fresh robot *)
NewRobot(st, prop, q, pose) ==
  LET r0 == [st |-> st, prop |-> prop, q |-> q, pose |-> pose,
             gp |-> [n \in DOMAIN st.nodes |-> Unknown], ok |-> [n \in DOMAIN st.nodes |-> TRUE],
             vp |-> [n \in DOMAIN st.nodes |-> Unknown], cp |-> [n \in DOMAIN st.nodes |-> Unknown],
             vf |-> [n \in DOMAIN st.nodes |-> TRUE],  cf |-> [n \in DOMAIN st.nodes |-> TRUE],
             uv |-> [n \in DOMAIN st.nodes |-> TRUE],  uc |-> [n \in DOMAIN st.nodes |-> TRUE]]
  IN Update(r0, Nodes(r0))

----------------------------------------------------------------------------
(* actions: one per operation of the API *)
Put(id, r) == rob' = [x \in DOMAIN rob \cup {id} |-> IF x = id THEN r ELSE rob[x]]

SetJoint(id, n, v) == Put(id, Update(Write(rob[id], n :> v), Sub(rob[id], n)))
SetJointNoUpdate(id, n, v) == Put(id, Write(rob[id], n :> v))
Apply_(id) == Put(id, Update(rob[id], Nodes(rob[id])))
SetMany(id, vals) == Put(id, Update(Write(rob[id], vals), Nodes(rob[id])))
(* through a node set: vs by position; only the part below its kinematic root is updated *)
SeqVals(nodes, vs) == [n \in { nodes[i] : i \in 1..Len(nodes) } |->
                         vs[CHOOSE i \in 1..Len(nodes) : nodes[i] = n /\ \A j \in 1..Len(nodes) : nodes[j] = n => j <= i]]
SetThroughSet(id, nodes, root, vs) ==
  IF Len(nodes) # Len(vs) THEN UNCHANGED rob
  ELSE Put(id, Update(Write(rob[id], SeqVals(nodes, vs)), Sub(rob[id], root)))
SetPose(id, p) == Put(id, Update([rob[id] EXCEPT !.pose = p], Nodes(rob[id])))
SetPoseNoApply(id, p) ==
  LET r == rob[id] IN Put(id, [r EXCEPT !.pose = p, !.ok[Root(r)] = r.ok[Root(r)] /\ p = r.pose])
(* place the robot such that node n is at pose p *)
PlaceNode(id, n, p) == LET r == rob[id] IN SetPose(id, Mul(Mul(p, Inv(r.gp[n])), r.pose))
(* ... at position v, keeping the orientation of the robot *)
PlaceNodePos(id, n, v) ==
  LET r == rob[id] IN SetPose(id, IF r.pose = Unknown \/ r.gp[n] = Unknown THEN Unknown ELSE SetPos(r.pose, << r.pose[10] + v[1] - r.gp[n][10], r.pose[11] + v[2] - r.gp[n][11],
                                                   r.pose[12] + v[3] - r.gp[n][12] >>))
SetUpdateVis(id, b) ==
  LET r == rob[id] IN
  Put(id, [r EXCEPT !.uv = [n \in Nodes(r) |-> b], !.uc = [n \in Nodes(r) |-> IF b THEN TRUE ELSE r.uc[n]]])
SetUpdateCol(id, b) == LET r == rob[id] IN Put(id, [r EXCEPT !.uc = [n \in Nodes(r) |-> b]])
SetNodeUpdateVis(id, m, b) ==
  LET r == rob[id] IN
  Put(id, [r EXCEPT !.uv[m] = b, !.uc[m] = IF b THEN TRUE ELSE r.uc[m]])
SetLimits(id, n, lo, hi) == LET r == rob[id] IN Put(id, [r EXCEPT !.st.nodes[n].lo = lo, !.st.nodes[n].hi = hi])
SetLimitless(id, n, b) == LET r == rob[id] IN Put(id, [r EXCEPT !.st.nodes[n].free = b])
SetEnforce(id, n, b) == LET r == rob[id] IN Put(id, [r EXCEPT !.st.nodes[n].enf = b])
SetProp(id, n, t, f) ==
  LET r == rob[id]
      old == Prop(r, n)
      new == IF f = 0 THEN [x \in DOMAIN old \ {t} |-> old[x]] ELSE (t :> f) @@ old
  IN Put(id, [r EXCEPT !.prop = (n :> new) @@ r.prop])
SetDyn(id, n, va) == LET r == rob[id] IN Put(id, [r EXCEPT !.st.nodes[n].va = va])
SetLoc(id, n, p) ==   \* takes effect with the next update
  LET r == rob[id] IN Put(id, [r EXCEPT !.st.nodes[n].loc = p, !.ok[n] = r.ok[n] /\ p = N(r, n).loc])

----------------------------------------------------------------------------
(* queries *)
Delta(r, n, t) ==
  LET nd == N(r, n) IN
  IF nd.free THEN ShortDelta(t - r.q[n])
  ELSE IF t < nd.lo \/ t > nd.hi THEN 0 ELSE t - r.q[n]
InLimits(r, n, v) == N(r, n).lo <= v /\ v <= N(r, n).hi
Respect(r, n, v) == Clamp(N(r, n).lo, N(r, n).hi, v)

(* consecutive members descend from each other *)
IsChain(r, nodes) == \A i \in 1..Len(nodes)-1 : IsAncestor(r, nodes[i], nodes[i+1])

----------------------------------------------------------------------------
(* the properties *)
AllOk(r) == \A n \in Nodes(r) : r.ok[n]
InvFK == \A id \in DOMAIN rob : LET r == rob[id] IN
            AllOk(r) => \A n \in Nodes(r) : r.gp[n] = FK(r, n, r.pose)
InvModels == \A id \in DOMAIN rob : LET r == rob[id] IN
            \A n \in Nodes(r) : (r.vf[n] => r.vp[n] = r.gp[n]) /\ (r.cf[n] => r.cp[n] = r.gp[n])
InvRigid == \A id \in DOMAIN rob : \A n \in Nodes(rob[id]) : IsRigid(rob[id].gp[n])
=============================================================================
