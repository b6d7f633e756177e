------------------------------- MODULE Grasps -------------------------------
(* Grasps, grasp sets and manipulation objects (VirtualRobot/Grasping,         *)
(* ManipulationObject, ObjectIO).                                              *)
(*                                                                             *)
(* gr: id -> [name, rt, eef, p, cr, q, pre, cfg]   p: object in the TCP frame  *)
(* gs: id -> [name, rt, eef, g]                    g: sequence of grasp ids    *)
(* ob: id -> [name, p, s]                          s: sequence of set ids      *)
EXTENDS Lattice, FiniteSets, TLC

VARIABLES gr, gs, ob

E0 == [x \in {} |-> 0]
In(x, s) == \E k \in 1..Len(s) : s[k] = x
Sx(t, k) == t \o "." \o ToString(k - 1)
PutF(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
PutAll(f, g) == [y \in DOMAIN f \cup DOMAIN g |-> IF y \in DOMAIN g THEN g[y] ELSE f[y]]
RemoveAt_(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
IndexOf_(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..k-1 : s[j] # x
First(s, P(_)) == IF \E k \in 1..Len(s) : P(s[k]) THEN s[CHOOSE k \in 1..Len(s) : P(s[k]) /\ \A j \in 1..k-1 : ~P(s[j])] ELSE ""
LastIdx(s, P(_)) == IF \E k \in 1..Len(s) : P(s[k]) THEN CHOOSE k \in 1..Len(s) : P(s[k]) /\ \A j \in k+1..Len(s) : ~P(s[j]) ELSE 0
SetOnly == UNCHANGED <<gr, ob>>
GrOnly == UNCHANGED <<gs, ob>>
ObOnly == UNCHANGED <<gr, gs>>

----------------------------------------------------------------------------
(* grasps *)
NewGrasp(id, g) == gr' = PutF(gr, id, g) /\ GrOnly
Edit(id, f, v) == gr' = [gr EXCEPT ![id][f] = v] /\ GrOnly
CloneGrasp(x, id) == gr' = PutF(gr, id, gr[x]) /\ GrOnly
(* pose of the TCP that grasps an object at p; pose of the object grasped at p *)
TcpFor(g, p) == Mul(p, Inv(g.p))
ObjectFor(g, p) == Mul(p, g.p)

----------------------------------------------------------------------------
(* sets *)
RECURSIVE AddAll(_, _)
AddAll(s, xs) == IF xs = <<>> THEN s ELSE AddAll(IF In(Head(xs), s) THEN s ELSE Append(s, Head(xs)), Tail(xs))
NewSet(id, s) == gs' = PutF(gs, id, s) /\ SetOnly
AddGrasp(s, g) == gs' = [gs EXCEPT ![s].g = AddAll(@, <<g>>)] /\ SetOnly
RemGrasp(s, g) == (IF In(g, gs[s].g) THEN gs' = [gs EXCEPT ![s].g = RemoveAt_(@, IndexOf_(@, g))] ELSE UNCHANGED gs) /\ SetOnly
RemIdx(s, k) == (IF k < Len(gs[s].g) THEN gs' = [gs EXCEPT ![s].g = RemoveAt_(@, k+1)] ELSE UNCHANGED gs) /\ SetOnly
Clear(s) == gs' = [gs EXCEPT ![s].g = <<>>] /\ SetOnly
Include(s, t) == gs' = [gs EXCEPT ![s].g = AddAll(@, gs[t].g)] /\ SetOnly
SetPre(s, pre) == gr' = [x \in DOMAIN gr |-> IF In(x, gs[s].g) THEN [gr[x] EXCEPT !.pre = pre] ELSE gr[x]] /\ GrOnly
CopiesOf(src, t) == [x \in { Sx(t, k) : k \in 1..Len(src.g) } |-> gr[src.g[CHOOSE k \in 1..Len(src.g) : Sx(t, k) = x]]]
CopySet(src, t) == [src EXCEPT !.g = [k \in 1..Len(src.g) |-> Sx(t, k)]]
CloneSet(s, t) == gr' = PutAll(gr, CopiesOf(gs[s], t)) /\ gs' = PutF(gs, t, CopySet(gs[s], t)) /\ UNCHANGED ob

----------------------------------------------------------------------------
(* objects *)
NewObj(id, name, p) == ob' = PutF(ob, id, [name |-> name, p |-> p, s |-> <<>>]) /\ ObOnly
MoveObj(id, p) == ob' = [ob EXCEPT ![id].p = p] /\ ObOnly
CanAdd(o, s) == ~In(s, ob[o].s)
AddSet(o, s) == (IF CanAdd(o, s) THEN ob' = [ob EXCEPT ![o].s = Append(@, s)] ELSE UNCHANGED ob) /\ ObOnly
Match(rt, eef, s) == gs[s].rt = rt /\ gs[s].eef = eef
Target(o, s) == LastIdx(ob[o].s, LAMBDA x : Match(gs[s].rt, gs[s].eef, x))
IncludeInto(o, s) == IF Target(o, s) = 0 THEN UNCHANGED <<gr, gs, ob>> ELSE Include(ob[o].s[Target(o, s)], s)
(* a copy or a reloaded object: everything is new; a file does not repeat robot type and end effector for every grasp *)
CopyObj(o, t, name, file) ==
  LET n == Len(ob[o].s)
      sid(k) == Sx(t, k)
      allg == UNION { { <<k, m>> : m \in 1..Len(gs[ob[o].s[k]].g) } : k \in 1..n }
      gid(km) == Sx(sid(km[1]), km[2])
      src(km) == LET s == gs[ob[o].s[km[1]]]  g == gr[s.g[km[2]]] IN IF file THEN [g EXCEPT !.rt = s.rt, !.eef = s.eef] ELSE g
  IN /\ gr' = PutAll(gr, [x \in { gid(km) : km \in allg } |-> src(CHOOSE km \in allg : gid(km) = x)])
     /\ gs' = PutAll(gs, [x \in { sid(k) : k \in 1..n } |-> LET k == CHOOSE k \in 1..n : sid(k) = x IN CopySet(gs[ob[o].s[k]], x)])
     /\ ob' = PutF(ob, t, [name |-> name, p |-> ob[o].p, s |-> [k \in 1..n |-> sid(k)]])

----------------------------------------------------------------------------
(* the properties *)
NoRepeat(s) == \A j, k \in 1..Len(s) : s[j] = s[k] => j = k
SetsOK == \A s \in DOMAIN gs : NoRepeat(gs[s].g) /\ \A k \in 1..Len(gs[s].g) : gs[s].g[k] \in DOMAIN gr
ObsOK == \A o \in DOMAIN ob : NoRepeat(ob[o].s) /\ \A k \in 1..Len(ob[o].s) : ob[o].s[k] \in DOMAIN gs
BackAndForth(Ps) == \A x \in DOMAIN gr : \A p \in Ps : ObjectFor(gr[x], TcpFor(gr[x], p)) = p /\ TcpFor(gr[x], ObjectFor(gr[x], p)) = p
=============================================================================
