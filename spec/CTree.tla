------------------------------- MODULE CTree --------------------------------
(* The pool of nodes of a configuration space and the search trees that use it *)
(* (MotionPlanning/CSpace/CSpaceTree).  Identifiers are chosen by the system:   *)
(* any free one may be handed out.                                             *)
(* tr : tree -> [s, upd, ns : Seq([id, par, q]), kid]                          *)
(*      par -1 for a root; kid the pairs <<parent, child>> that are linked     *)
(*      downwards, too (nodes appended while the tree links children)          *)
(* lo : name -> [s, id]  nodes taken from the pool directly                    *)
EXTENDS CSpaces

VARIABLES tr, lo
tvars == <<tr, lo>>

SetSp(s, f, v) == [sp EXCEPT ![s][f] = v]
Ids(t) == { tr[t].ns[k].id : k \in 1..Len(tr[t].ns) }
IdxOf(t, id) == CHOOSE k \in 1..Len(tr[t].ns) : tr[t].ns[k].id = id
NodeOf(t, id) == tr[t].ns[IdxOf(t, id)]
Room(s) == sp[s].cap - Cardinality(sp[s].used)
Fresh(s, id) == id \in 0..sp[s].cap - 1 /\ id \notin sp[s].used
WithK(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
WithoutK(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

NewNode(s, k, id) == /\ Fresh(s, id) /\ sp' = SetSp(s, "used", sp[s].used \cup {id})
                     /\ lo' = WithK(lo, k, [s |-> s, id |-> id]) /\ UNCHANGED <<env, tr>>
(* a node that is not in use is not released again *)
Release(s, k) == /\ sp' = SetSp(s, "used", sp[s].used \ {lo[k].id})
                 /\ lo' = WithoutK(lo, k) /\ UNCHANGED <<env, tr>>
NewTree(s, t, u) == tr' = WithK(tr, t, [s |-> s, upd |-> u, ns |-> <<>>, kid |-> {}]) /\ UNCHANGED <<env, sp, lo>>
Link(t, u) == tr' = [tr EXCEPT ![t].upd = u] /\ UNCHANGED <<env, sp, lo>>
(* a chain of nodes below par, with identifiers ids and configurations qs *)
ChainOf(par, ids, qs) == [k \in 1..Len(ids) |-> [id |-> ids[k], par |-> IF k = 1 THEN par ELSE ids[k-1], q |-> qs[k]]]
Append_(t, par, ids, qs) ==
  LET s == tr[t].s  c == ChainOf(par, ids, qs)
  IN /\ \A k \in 1..Len(ids) : Fresh(s, ids[k])
     /\ \A j, k \in 1..Len(ids) : j # k => ids[j] # ids[k]
     /\ sp' = SetSp(s, "used", sp[s].used \cup { ids[k] : k \in 1..Len(ids) })
     /\ tr' = [tr EXCEPT ![t].ns = @ \o c,
                         ![t].kid = @ \cup (IF tr[t].upd THEN { <<c[k].par, c[k].id>> : k \in { k \in 1..Len(c) : c[k].par # -1 } } ELSE {})]
     /\ UNCHANGED <<env, lo>>
IsLeaf(t, id) == \A k \in 1..Len(tr[t].ns) : tr[t].ns[k].par # id
RemoveLeaf(t, id) ==
  LET s == tr[t].s  n == NodeOf(t, id)
  IN /\ tr' = [tr EXCEPT ![t].ns = LET k == IdxOf(t, id) IN SubSeq(@, 1, k-1) \o SubSeq(@, k+1, Len(@)),
                         ![t].kid = IF tr[t].upd THEN @ \ {<<n.par, id>>} ELSE @]
     /\ sp' = SetSp(s, "used", sp[s].used \ {id})
     /\ UNCHANGED <<env, lo>>
(* resetting a tree forgets its nodes, only resetting the space releases them *)
ResetTree(t) == tr' = [tr EXCEPT ![t].ns = <<>>, ![t].kid = {}] /\ UNCHANGED <<env, sp, lo>>
ResetSpace(s) == /\ sp' = SetSp(s, "used", {})
                 /\ tr' = [t \in DOMAIN tr |-> IF tr[t].s = s THEN [tr[t] EXCEPT !.ns = <<>>, !.kid = {}] ELSE tr[t]]
                 /\ lo' = [k \in { k \in DOMAIN lo : lo[k].s # s } |-> lo[k]]
                 /\ UNCHANGED env

----------------------------------------------------------------------------
(* queries *)
Near(t, c) == [k \in 1..Len(tr[t].ns) |-> Dist(tr[t].s, tr[t].ns[k].q, c, FALSE)]
(* from a node up to the root *)
RECURSIVE Up_(_, _)
Up_(t, id) == LET n == NodeOf(t, id) IN IF n.par = -1 THEN <<id>> ELSE <<id>> \o Up_(t, n.par)
(* the nodes from an ancestor down to a node; when the first is no ancestor,   *)
(* there is no path                                                            *)
Above(t, a, b) == \E k \in 1..Len(Up_(t, b)) : Up_(t, b)[k] = a
Down(t, a, b) == LET u == Up_(t, b)  k == CHOOSE k \in 1..Len(u) : u[k] = a IN [j \in 1..k |-> u[k + 1 - j]]
RECURSIVE TreeLen_(_, _, _)
TreeLen_(t, k, W) == IF k = 0 THEN 0
                     ELSE LET n == tr[t].ns[k] IN TreeLen_(t, k-1, W) + (IF n.par = -1 THEN 0 ELSE Dist(tr[t].s, NodeOf(t, n.par).q, n.q, W))

----------------------------------------------------------------------------
(* what holds in every state *)
Capacity == \A s \in DOMAIN sp : sp[s].used \subseteq 0..sp[s].cap - 1 /\ Cardinality(sp[s].used) <= sp[s].cap
Unique == \A t \in DOMAIN tr : \A j, k \in 1..Len(tr[t].ns) : j # k => tr[t].ns[j].id # tr[t].ns[k].id
InUse == \A t \in DOMAIN tr : Ids(t) \subseteq sp[tr[t].s].used
Disjoint == \A t, u \in DOMAIN tr : t # u /\ tr[t].s = tr[u].s => Ids(t) \cap Ids(u) = {}
LooseApart == \A k \in DOMAIN lo : lo[k].id \in sp[lo[k].s].used /\ \A t \in DOMAIN tr : tr[t].s = lo[k].s => lo[k].id \notin Ids(t)
ParentsBefore == \A t \in DOMAIN tr : \A k \in 1..Len(tr[t].ns) :
                    tr[t].ns[k].par = -1 \/ \E j \in 1..k-1 : tr[t].ns[j].id = tr[t].ns[k].par
KidsAreKids == \A t \in DOMAIN tr : \A l \in tr[t].kid : l[2] \in Ids(t) => NodeOf(t, l[2]).par = l[1]
=============================================================================
