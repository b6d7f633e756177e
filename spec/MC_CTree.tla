------------------------------ MODULE MC_CTree ------------------------------
(* Small instance of the node pool and search trees: one space with few nodes, *)
(* two trees, configurations on a line.                                        *)
EXTENDS CTree, TLC, Json

CONSTANT MaxLevel, Sim, Cap
VARIABLE hist
mvars == <<env, sp, tr, lo, hist>>
Qs == {<<0>>, <<30>>, <<-50>>}
T == {"A", "B"}
L == {"x"}
H(r) == hist' = IF Sim THEN Append(hist, r) ELSE Append(hist, 0)
Least(s) == CHOOSE x \in 0..sp[s].cap-1 : x \notin sp[s].used /\ \A y \in 0..sp[s].cap-1 : y \notin sp[s].used => x <= y
(* any free identifier; one of them when behaviours are generated *)
FreeIds == LET F == (0..Cap-1) \ sp["S"].used IN IF Sim THEN (IF F = {} THEN {} ELSE {Least("S")}) ELSE F

MInit == /\ env = [ax |-> <<1>>, hb |-> <<30, 30, 300>>, p0 |-> <<0, 0, 0>>, lim |-> <<<<-2000, 2000>>>>, obs |-> <<>>]
         /\ sp = [s \in {"S"} |-> [kind |-> "plain", lo |-> <<-2000>>, hi |-> <<2000>>, w |-> <<1>>, use |-> FALSE, samp |-> 1, dcd |-> 1, cap |-> Cap, used |-> {}, con |-> <<>>]]
         /\ tr = [t \in T |-> [s |-> "S", upd |-> t = "A", ns |-> <<>>, kid |-> {}]] /\ lo = [k \in {} |-> 0]
         /\ hist = <<>>
Step ==
  \/ \E k \in L, id \in FreeIds : k \notin DOMAIN lo /\ NewNode("S", k, id) /\ H([op |-> "nnew", s |-> "S", k |-> k])
  \/ \E k \in DOMAIN lo : Release("S", k) /\ H([op |-> "nrel", s |-> "S", k |-> k])
  \/ \E t \in T, q \in Qs, id \in FreeIds :
       \E p \in {-1} \cup 1..Len(tr[t].ns) : (p = -1) = (Len(tr[t].ns) = 0) /\
         Append_(t, IF p = -1 THEN -1 ELSE tr[t].ns[p].id, <<id>>, <<q>>) /\ H([op |-> "tapp", t |-> t, k |-> IF p = -1 THEN -1 ELSE p - 1, c |-> q, d |-> FALSE])
  \/ \E t \in T, p \in 1..4, x \in FreeIds, y \in FreeIds : p <= Len(tr[t].ns) /\ Room("S") >= 2 /\ ~Sim /\ x # y /\
         Append_(t, tr[t].ns[p].id, <<x, y>>, << <<30>>, <<-50>> >>) /\ H(0)
  \/ Sim /\ Room("S") = 0 /\ UNCHANGED <<env, sp, tr, lo>> /\ H([op |-> "nnew", s |-> "S", k |-> "y"])
  \/ \E t \in T : \E p \in 1..Len(tr[t].ns) : LET id == tr[t].ns[p].id IN
         (IF IsLeaf(t, id) THEN RemoveLeaf(t, id) ELSE UNCHANGED <<env, sp, tr, lo>>) /\ H([op |-> "trem", t |-> t, k |-> p - 1])
  \/ \E t \in T : ResetTree(t) /\ Len(tr[t].ns) > 0 /\ (~Sim \/ RandomElement(1..6) = 1) /\ H([op |-> "treset", t |-> t])
  \/ ResetSpace("S") /\ sp["S"].used # {} /\ (~Sim \/ RandomElement(1..8) = 1) /\ H([op |-> "sreset", s |-> "S"])
  \/ Sim /\ UNCHANGED <<env, sp, tr, lo>> /\ \E t \in T, c \in Qs : Len(tr[t].ns) > 1 /\
        (\/ H([op |-> "tnn", t |-> t, c |-> c])
         \/ \E k, l \in 0..2 : H([op |-> "tsol", t |-> t, k |-> k, l |-> l])
         \/ H([op |-> "tlen", t |-> t, w |-> TRUE]))
MNext == Step
Bound == Len(hist) <= MaxLevel
View == <<sp, tr, lo>>
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
(* a release gives back exactly the nodes the tree or the holder had *)
Stable == [][\A t \in T : \A k \in 1..Len(tr[t].ns) : LET n == tr[t].ns[k] IN
               n.id \in { tr'[t].ns[j].id : j \in 1..Len(tr'[t].ns) } => \E j \in 1..Len(tr'[t].ns) : tr'[t].ns[j] = n \/ tr'[t].ns[j].id # n.id]_mvars
=============================================================================
