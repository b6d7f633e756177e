----------------------------- MODULE Restructure -----------------------------
(* Changing the structure of a robot: another root, a reduced set of joints,   *)
(* parts united to one body.  The result is given as a robot of Robots.tla, so *)
(* its kinematics for every joint configuration follows; GeomKept states that  *)
(* it is the kinematics of the original.                                       *)
EXTENDS RobotFile

RECURSIVE PathUp(_, _)
PathUp(r, n) == IF N(r, n).par = "" THEN <<n>> ELSE <<n>> \o PathUp(r, N(r, n).par)

Neg(v) == <<-v[1], -v[2], -v[3]>>
NoPhys == [m |-> 0, com |-> <<0,0,0>>, in |-> Diag(1000,1000,1000), sim |-> "Unknown", fr |-> -1000, ign |-> <<>>]
MovePh(p, tr) == [p EXCEPT !.com = IF tr = Unknown THEN @ ELSE Apply(tr, @)]
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

(* ---- another root.  Along the path from the new to the old root the order   *)
(* of the frames is reversed: the body between two frames moves to the node    *)
(* that now comes first, and a reversed joint turns the other way.             *)
InvNodes(r, t, T) ==
  LET p == PathUp(r, t)
      m == Len(p)
      on(n) == \E k \in 1..m : p[k] = n
  IN [n \in T |->
        LET nd == N(r, n) IN
        IF ~on(n) THEN nd
        ELSE LET k == PosIn(p, n)
                 tr == Inv(N(r, n).loc)                         \* displacement of the body of the next frame
                 geo == IF k = 1 THEN [nd EXCEPT !.par = "", !.loc = IdPose]
                        ELSE [nd EXCEPT !.par = p[k-1], !.loc = Inv(N(r, p[k-1]).loc), !.ax = Neg(@)]
             IN IF m = 1 THEN geo
                ELSE IF k = m THEN [geo EXCEPT !.vis = FALSE, !.col = FALSE, !.ph = NoPhys, !.sens = [x \in {} |-> 0]]
                ELSE LET b == N(r, p[k+1]) IN
                     [geo EXCEPT !.vis = b.vis, !.col = b.col, !.ph = MovePh(b.ph, tr),
                                 !.sens = [s \in DOMAIN Fn(b.sens) |-> Mul(tr, b.sens[s])]]]
InvSets(r, nodes) ==
  LET r2 == [st |-> [nodes |-> nodes]]
      rt == CHOOSE n \in DOMAIN nodes : nodes[n].par = "" IN
  [s \in DOMAIN r.st.rns |-> LET x == r.st.rns[s] IN
     [x EXCEPT !.root = IF \A k \in 1..Len(x.nodes) : x.nodes[k] \in Sub(r2, x.root) THEN x.root ELSE rt,
               !.chain = Len(x.nodes) > 0 /\ IsChain(r2, x.nodes)]]
None0(T) == [n \in T |-> 0]
Fresh(r, st, q, pose) == NewRobot(st, [x \in {} |-> 0], q, pose)
InvRobot(r, t, sets, eefs) ==
  LET nodes == InvNodes(r, t, Nodes(r))
      st == [r.st EXCEPT !.type = r.st.type \o "_restructured_" \o t, !.root = t, !.nodes = nodes,
                         !.rns = IF sets THEN InvSets(r, nodes) ELSE [x \in {} |-> 0], !.eef = IF eefs THEN @ ELSE [x \in {} |-> 0]]
  IN NewRobot(st, r.prop, [n \in Nodes(r) |-> IF IsJoint(r, n) THEN Store(nodes[n], 0) ELSE 0], IdPose)

(* the chain from a to b only, reversed *)
ChainPath(r, a, b) == LET p == PathUp(r, b) IN SubSeq(p, 1, PosIn(p, a))
ChainRobot(r, a, b) ==
  LET T == ToSet_(ChainPath(r, a, b))
      r2 == [st |-> [r.st EXCEPT !.nodes = [n \in T |-> IF n = a THEN [N(r, n) EXCEPT !.par = ""] ELSE N(r, n)]]]
      nodes == InvNodes(r2, b, T)
      st == [r.st EXCEPT !.type = r.st.type \o "_restructured_" \o b, !.root = b, !.nodes = nodes,
                         !.rns = [x \in {} |-> 0], !.eef = [x \in {} |-> 0]]
  IN NewRobot(st, [n \in DOMAIN r.prop \cap T |-> r.prop[n]], [n \in T |-> IF IsJoint(r, n) THEN Store(nodes[n], 0) ELSE 0], IdPose)

(* ---- united bodies *)
Rel(r, a, n) == Mul(Inv(r.gp[a]), r.gp[n])       \* frame n seen from a, now

MassOf(r, S) == FoldLeft(LAMBDA a, n : a + N(r, n).ph.m, 0, SetToSeq(S))
(* moments in gram-millimetres *)
ComOf(r, S, base) ==
  LET M == MassOf(r, S)
      at(n) == Apply(Mul(base, r.gp[n]), N(r, n).ph.com)
      known == \A n \in S : r.gp[n] # Unknown
      sum(c) == FoldLeft(LAMBDA a, n : a + N(r, n).ph.m * at(n)[c], 0, SetToSeq(S))
  IN IF M = 0 THEN <<0,0,0>> ELSE IF ~known THEN Unknown ELSE <<sum(1) \div M, sum(2) \div M, sum(3) \div M>>
FixedNode(par, loc, ph, sens, vis, col) ==
  [par |-> par, typ |-> "fixed", ax |-> <<0,0,0>>, lo |-> 0, hi |-> 0, lim2 |-> TRUE, free |-> FALSE, enf |-> TRUE, off |-> 0,
   loc |-> loc, va |-> <<-1000,-1000,-1000>>, ph |-> ph, sens |-> sens, vis |-> vis, col |-> col]
SensOf(r, S, base) ==
  LET names == UNION { DOMAIN Fn(N(r, n).sens) : n \in S }
      own(s) == CHOOSE n \in S : s \in DOMAIN Fn(N(r, n).sens)
  IN [s \in names |-> Mul(base, Mul(r.gp[own(s)], N(r, own(s)).sens[s]))]
(* the bodies S united in one fixed node at the frame whose inverse is base *)
United(r, par, S, SS, base) ==
  FixedNode(par, IdPose, [NoPhys EXCEPT !.m = MassOf(r, S), !.com = ComOf(r, S, base)], SensOf(r, SS, base),
            \E n \in S : N(r, n).vis, \E n \in S : N(r, n).col)
NoSens(nd) == [nd EXCEPT !.sens = [x \in {} |-> 0]]

(* ---- only the joints of a chain stay joints; everything else is frozen as it is now *)
SubsetOK(r, ns) == \A k \in 1..Len(ns)-1 : IsAncestor(r, ns[k], ns[k+1])
SubsetChain(r, s) == IF s.root \in ToSet_(s.nodes) THEN s.nodes ELSE <<s.root>> \o s.nodes
SubsetRobot(r, s, name) ==
  LET ns == SubsetChain(r, s)
      L == Len(ns)
      sub(k) == Sub(r, ns[k])
      rest(k) == (sub(k) \ {ns[k]}) \ (IF k < L THEN sub(k+1) ELSE {})        \* between this node and the next
      ss(k) == rest(k) \cup {ns[k]}
      withf(k) == rest(k) # {} \/ \E n \in ss(k) : DOMAIN Fn(N(r, n).sens) # {}
      fx(k) == ns[k] \o "_FixedTrafo"
      before == Nodes(r) \ sub(1)
      from(k) == IF k = 1 THEN Inv(r.pose) ELSE Inv(r.gp[ns[k-1]])
      up(k) == N(r, ns[k]).par
      loc(k) == IF up(k) = "" THEN N(r, ns[k]).loc ELSE Mul(Mul(from(k), r.gp[up(k)]), N(r, ns[k]).loc)
      par(k) == IF k = 1 THEN "root" ELSE IF withf(k-1) THEN fx(k-1) ELSE ns[k-1]
      chain == [n \in ToSet_(ns) |-> LET k == PosIn(ns, n) IN [NoSens(N(r, n)) EXCEPT !.par = par(k), !.loc = loc(k)]]
      fixed == [x \in { fx(k) : k \in { j \in 1..L : withf(j) } } |->
                  LET k == CHOOSE j \in 1..L : fx(j) = x IN United(r, ns[k], rest(k), ss(k), Inv(r.gp[ns[k]]))]
      nodes == chain @@ fixed @@ [root |-> United(r, "", before, before, Inv(r.pose))]
      st == [r.st EXCEPT !.name = name, !.root = "root", !.nodes = nodes, !.rns = [x \in {} |-> 0], !.eef = [x \in {} |-> 0]]
  IN NewRobot(st, [n \in DOMAIN r.prop \cap ToSet_(ns) |-> r.prop[n]], [n \in DOMAIN nodes |-> IF nodes[n].typ # "fixed" THEN Store(nodes[n], 0) ELSE 0], r.pose)

(* ---- every node of U is united with everything below it *)
UniteRobot(r, U0, name) ==
  LET U == U0 \ {r.st.root}
      below == UNION { Sub(r, n) \ {n} : n \in U }
      T == Nodes(r) \ below
      tops == U \cap T
      withf(n) == Sub(r, n) # {n} \/ DOMAIN Fn(N(r, n).sens) # {}
      fx(n) == n \o "_FixedTrafo"
      nodes == [n \in T |-> IF n \in tops THEN NoSens(N(r, n)) ELSE N(r, n)]
               @@ [x \in { fx(n) : n \in { m \in tops : withf(m) } } |->
                     LET n == CHOOSE m \in tops : fx(m) = x IN United(r, n, Sub(r, n) \ {n}, Sub(r, n), Inv(r.gp[n]))]
      keep(s) == ToSet_(s.nodes) \cup {s.tcp, s.root} \subseteq T
      st == [r.st EXCEPT !.name = name, !.nodes = nodes, !.rns = [x \in { y \in DOMAIN r.st.rns : keep(r.st.rns[y]) } |-> r.st.rns[x]],
                         !.eef = [x \in {} |-> 0]]
  IN NewRobot(st, [n \in DOMAIN r.prop \cap T |-> r.prop[n]], [n \in DOMAIN nodes |-> IF nodes[n].typ # "fixed" THEN Store(nodes[n], 0) ELSE 0], r.pose)

(* ---- objects attached to a robot *)
AttachNode(r, n, name, loc) ==
  Update([r EXCEPT !.st.nodes = (name :> FixedNode(n, loc, NoPhys, [x \in {} |-> 0], TRUE, TRUE)) @@ @,
                   !.q = (name :> 0) @@ @, !.gp = (name :> Unknown) @@ @, !.ok = (name :> TRUE) @@ @,
                   !.vp = (name :> Unknown) @@ @, !.cp = (name :> Unknown) @@ @, !.vf = (name :> TRUE) @@ @, !.cf = (name :> TRUE) @@ @,
                   !.uv = (name :> TRUE) @@ @, !.uc = (name :> TRUE) @@ @], {name})
DetachNode(r, n) ==
  LET d(f) == [x \in DOMAIN f \ {n} |-> f[x]] IN
  [r EXCEPT !.st.nodes = d(@), !.q = d(@), !.gp = d(@), !.ok = d(@), !.vp = d(@), !.cp = d(@), !.vf = d(@), !.cf = d(@), !.uv = d(@), !.uc = d(@)]

(* ---- the property: with the same values, the robots have the same shape.    *)
(* A reversed joint's node is the frame before its motion.                     *)
Reversed(r, c) == { n \in Nodes(r) \cap Nodes(c) : N(r, n).ax = Neg(N(c, n).ax) /\ N(r, n).ax # <<0,0,0>> }
Before(r, n) == Mul(r.gp[n], Inv(Motion(N(r, n), r.q[n])))
FrameOf(r, c, n) == IF n \in Reversed(r, c) THEN Before(r, n) ELSE r.gp[n]
GeomKept(r, c, ref) ==
  \A n \in Nodes(r) \cap Nodes(c) :
     LET a == Mul(Inv(FrameOf(r, c, ref)), FrameOf(r, c, n))  b == Mul(Inv(c.gp[ref]), c.gp[n])
     IN a = Unknown \/ b = Unknown \/ a = b
=============================================================================
