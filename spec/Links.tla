------------------------------- MODULE Links -------------------------------
(* Coordinates linked to a frame of a robot: a coordinate belongs to one robot, *)
(* names one of its nodes and a pose relative to it.  What it denotes moves     *)
(* with that node; changing the frame re-expresses it and never moves it.       *)
EXTENDS Robots

VARIABLE lnk      \* coordinate id -> [r: robot, f: node or "", p: pose relative to the node]

Made(id) == [r |-> id, f |-> "", p |-> IdPose]
Linked(l) == l.f # ""
Denotes(l) == IF ~Linked(l) THEN Unknown ELSE Mul(rob[l.r].gp[l.f], l.p)
Between(r, n, m) == Mul(Inv(r.gp[m]), r.gp[n])              \* from n to m
InFrame(l, n) == Mul(Between(rob[l.r], l.f, n), l.p)
(* a node can be used by a coordinate of robot id when it is a node of that very robot *)
Usable(l, id, n) == l.r = id /\ n \in Nodes(rob[id])
Given(how, p) == IF how < 2 THEN p ELSE IF p = Unknown THEN Unknown ELSE Trans(Pos(p))      \* a pose or a position only

Put_(k, l) == lnk' = [x \in DOMAIN lnk \cup {k} |-> IF x = k THEN l ELSE lnk[x]]
LMake(k, id) == Put_(k, Made(id))
LCopy(k, d) == Put_(d, lnk[k])
LSet(k, n, p) == Put_(k, [lnk[k] EXCEPT !.f = n, !.p = p])
(* a coordinate that has no frame yet starts at the origin of the first one *)
LChange(k, n) == Put_(k, [lnk[k] EXCEPT !.f = n, !.p = IF Linked(lnk[k]) THEN InFrame(lnk[k], n) ELSE IdPose])
=============================================================================
