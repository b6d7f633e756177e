------------------------------ MODULE SceneReg ------------------------------
(* Scenes: robots, obstacles, manipulation objects, sets, configurations and   *)
(* trajectories registered by name, and stored in files                        *)
(* (VirtualRobot/Scene, SceneObjectSet, Trajectory, RobotConfig, SceneIO).     *)
(*                                                                             *)
(* it[kind][id] : the items the test made (kinds rb ob mo se tr cf)            *)
(*   rb [name, type, q, pose]       ob [name, pose, v, c, kg]                  *)
(*   mo [name, pose, v, c]          se [name, m: sequence of <<kind, id>>]     *)
(*   tr [name, rob, rns, p]         cf [name, rob, m, tcp]                     *)
(* sc : [name, rb, ob, mo, se, tr] sequences of ids, cf: robot -> sequence     *)
(* files : file -> content                                                     *)
EXTENDS Lattice, FiniteSets, TLC

VARIABLES it, sc, files

E0 == [x \in {} |-> 0]
Kinds == {"rb", "ob", "mo", "se", "tr"}
NoItems == [k \in Kinds \cup {"cf"} |-> E0]
NoScene == [name |-> "", rb |-> <<>>, ob |-> <<>>, mo |-> <<>>, se |-> <<>>, tr |-> <<>>, cf |-> E0]
Elem(x, s) == \E k \in 1..Len(s) : s[k] = x
Drop1(s, x) == LET k == CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..k-1 : s[j] # x IN SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
FirstBy(s, P(_)) == IF \E k \in 1..Len(s) : P(s[k]) THEN s[CHOOSE k \in 1..Len(s) : P(s[k]) /\ \A j \in 1..k-1 : ~P(s[j])] ELSE ""
SelectBy(s, P(_)) == LET RECURSIVE G(_)
                         G(k) == IF k > Len(s) THEN <<>> ELSE (IF P(s[k]) THEN <<s[k]>> ELSE <<>>) \o G(k+1) IN G(1)
NameOf(k, x) == it[k][x].name

----------------------------------------------------------------------------
(* items *)
SetItem(k, id, v) == it' = [it EXCEPT ![k] = [x \in DOMAIN @ \cup {id} |-> IF x = id THEN v ELSE @[x]]] /\ UNCHANGED <<sc, files>>

(* sets of objects *)
Members(s) == it.se[s].m
AddMember(s, x) == SetItem("se", s, [it.se[s] EXCEPT !.m = IF Elem(x, @) THEN @ ELSE Append(@, x)])
RemMember(s, x) == SetItem("se", s, [it.se[s] EXCEPT !.m = IF Elem(x, @) THEN Drop1(@, x) ELSE @])
(* adding another set stops at the first object that is already there *)
RECURSIVE AddAll(_, _)
AddAll(m, xs) == IF xs = <<>> \/ Elem(Head(xs), m) THEN <<m, xs = <<>>>> ELSE AddAll(Append(m, Head(xs)), Tail(xs))

----------------------------------------------------------------------------
(* registration *)
Find(k, n) == FirstBy(sc[k], LAMBDA x : NameOf(k, x) = n)
Put_(k, s) == sc' = [sc EXCEPT ![k] = s] /\ UNCHANGED <<it, files>>
Register(k, id) == Put_(k, IF Elem(id, sc[k]) \/ Find(k, NameOf(k, id)) # "" THEN sc[k] ELSE Append(sc[k], id))
Deregister(k, id) == Put_(k, IF Elem(id, sc[k]) THEN Drop1(sc[k], id) ELSE sc[k])
DeregisterName(k, n) == Put_(k, IF Find(k, n) = "" THEN sc[k] ELSE Drop1(sc[k], Find(k, n)))

Cfgs(r) == IF r \in DOMAIN sc.cf THEN sc.cf[r] ELSE <<>>
FindCfg(r, n) == FirstBy(Cfgs(r), LAMBDA c : NameOf("cf", c) = n)
PutC(r, s) == sc' = [sc EXCEPT !.cf = [x \in DOMAIN @ \cup {r} |-> IF x = r THEN s ELSE @[x]]] /\ UNCHANGED <<it, files>>
RECURSIVE RegAll(_, _)
RegAll(s, cs) == IF cs = <<>> THEN s
                 ELSE RegAll(IF \E k \in 1..Len(s) : NameOf("cf", s[k]) = NameOf("cf", Head(cs)) THEN s ELSE Append(s, Head(cs)), Tail(cs))
RegisterCfgs(r, cs) == PutC(r, RegAll(Cfgs(r), cs))
DeregisterCfg(r, c) == PutC(r, IF Elem(c, Cfgs(r)) THEN Drop1(Cfgs(r), c) ELSE Cfgs(r))
DeregisterCfgName(r, n) == PutC(r, IF FindCfg(r, n) = "" THEN Cfgs(r) ELSE Drop1(Cfgs(r), FindCfg(r, n)))
(* the configurations of a robot are listed as long as a robot of its name is in the scene *)
Listed(r) == IF Find("rb", NameOf("rb", r)) = "" THEN <<>> ELSE Cfgs(r)

----------------------------------------------------------------------------
(* files *)
(* a scene can be stored when what it mentions is in it: sets of objects of the scene, trajectories of its robots *)
InScene(x) == x[1] \in {"ob", "mo"} /\ Elem(x[2], sc[x[1]])
Storable == /\ \A k \in 1..Len(sc.se) : \A j \in 1..Len(Members(sc.se[k])) : InScene(Members(sc.se[k])[j])
            /\ \A k \in 1..Len(sc.tr) : Elem(it.tr[sc.tr[k]].rob, sc.rb)
            /\ \A k \in 1..Len(sc.ob) : Find("mo", NameOf("ob", sc.ob[k])) = ""    \* a set could not tell them apart
            /\ \A k \in 1..Len(sc.rb) : FindCfg(sc.rb[k], NameOf("rb", sc.rb[k])) = ""    \* that name is the one of the current configuration
CfgC(c) == LET x == it.cf[c] IN [name |-> x.name, m |-> x.m, tcp |-> x.tcp, own |-> TRUE]
RobC(r) == LET x == it.rb[r] IN
  [name |-> x.name, type |-> x.type, pose |-> x.pose, q |-> x.q,
   cfg |-> << [name |-> x.name, m |-> x.q, tcp |-> "", own |-> TRUE] >> \o [k \in 1..Len(Cfgs(r)) |-> CfgC(Cfgs(r)[k])]]
Seq_(k, f(_)) == [j \in 1..Len(sc[k]) |-> f(sc[k][j])]
Content == [name |-> sc.name,
            rb |-> Seq_("rb", RobC),
            ob |-> Seq_("ob", LAMBDA x : it.ob[x]),
            mo |-> Seq_("mo", LAMBDA x : it.mo[x]),
            se |-> Seq_("se", LAMBDA x : [name |-> NameOf("se", x), m |-> [j \in 1..Len(Members(x)) |-> NameOf(Members(x)[j][1], Members(x)[j][2])]]),
            tr |-> Seq_("tr", LAMBDA x : [name |-> NameOf("tr", x), rob |-> NameOf("rb", it.tr[x].rob), rns |-> it.tr[x].rns, p |-> it.tr[x].p])]
Save(f) == files' = [x \in DOMAIN files \cup {f} |-> IF x = f THEN [ok |-> Storable, c |-> Content] ELSE files[x]] /\ UNCHANGED <<it, sc>>

----------------------------------------------------------------------------
(* the properties: one item per name *)
OnePerName == /\ \A k \in Kinds : \A a, b \in 1..Len(sc[k]) : NameOf(k, sc[k][a]) = NameOf(k, sc[k][b]) => a = b
              /\ \A r \in DOMAIN sc.cf : \A a, b \in 1..Len(sc.cf[r]) : NameOf("cf", sc.cf[r][a]) = NameOf("cf", sc.cf[r][b]) => a = b
SetsOnce == \A s \in DOMAIN it.se : \A a, b \in 1..Len(Members(s)) : Members(s)[a] = Members(s)[b] => a = b
Found == \A k \in Kinds : \A a \in 1..Len(sc[k]) : Find(k, NameOf(k, sc[k][a])) = sc[k][a]
=============================================================================
