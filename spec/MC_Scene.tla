------------------------------ MODULE MC_Scene ------------------------------
(* Bounded exhaustive exploration of SceneReg.tla and behaviours for the real  *)
(* code.  The items exist from the start; names clash on purpose.              *)
EXTENDS SceneTrace
CONSTANTS MaxLevel
VARIABLE hist
mvars == <<it, sc, files, hist, i>>
P1 == <<0,-1,0, 1,0,0, 0,0,1, 100,0,0>>
P2 == <<1,0,0, 0,0,-1, 0,1,0, 0,50,-50>>
Q0 == [j1 |-> 0, j2 |-> 0]
Rb(x, n) == [op |-> "srob", x |-> x, nm |-> n, file |-> "@scene", rns |-> <<"all">>, ok |-> TRUE, res |-> [type |-> "SceneRob", q |-> Q0, pose |-> IdPose]]
Made == << [op |-> "reset"], [op |-> "scene", nm |-> "room"], Rb("A", "r"), Rb("B", "r"), Rb("C", "s"),
           [op |-> "sobst", x |-> "o1", nm |-> "a", l |-> 20, kg |-> 2, p |-> P1, how |-> 0],
           [op |-> "sobst", x |-> "o2", nm |-> "a", l |-> 30, kg |-> 0, p |-> P2, how |-> 0],
           [op |-> "sman", x |-> "m1", nm |-> "b", file |-> "-", l |-> 40, p |-> P1, ok |-> TRUE],
           [op |-> "sset", x |-> "s1", nm |-> "set"], [op |-> "sset", x |-> "s2", nm |-> "set"],
           [op |-> "scfg", x |-> "c1", r |-> "A", nm |-> "home", tcp |-> "-", m |-> [j1 |-> 90]],
           [op |-> "scfg", x |-> "c2", r |-> "A", nm |-> "home", tcp |-> "j2", m |-> [j2 |-> 50]],
           [op |-> "scfg", x |-> "c3", r |-> "C", nm |-> "far", tcp |-> "j1", m |-> [j1 |-> 10, j2 |-> 20]],
           [op |-> "straj", x |-> "t1", r |-> "A", nm |-> "path", rns |-> "all", n |-> 2, vs |-> <<0, 0, 90, 10>>],
           [op |-> "straj", x |-> "t2", r |-> "C", nm |-> "path2", rns |-> "all", n |-> 2, vs |-> <<10, 20>>] >>
Items == [NoItems EXCEPT
  !.rb = [x \in {"A", "B", "C"} |-> [name |-> IF x = "C" THEN "s" ELSE "r", type |-> "SceneRob", q |-> Q0, pose |-> IdPose, rns |-> {"all"}]],
  !.ob = [o1 |-> [name |-> "a", pose |-> P1, v |-> 20, c |-> 20, kg |-> 2], o2 |-> [name |-> "a", pose |-> P2, v |-> 30, c |-> 30, kg |-> 0]],
  !.mo = [m1 |-> [name |-> "b", pose |-> P1, v |-> 40, c |-> 40]],
  !.se = [s1 |-> [name |-> "set", m |-> <<>>], s2 |-> [name |-> "set", m |-> <<>>]],
  !.cf = [c1 |-> [name |-> "home", rob |-> "A", m |-> [j1 |-> 90], tcp |-> ""], c2 |-> [name |-> "home", rob |-> "A", m |-> [j2 |-> 50], tcp |-> "j2"],
          c3 |-> [name |-> "far", rob |-> "C", m |-> [j1 |-> 10, j2 |-> 20], tcp |-> "j1"]],
  !.tr = [t1 |-> [name |-> "path", rob |-> "A", rns |-> "all", p |-> <<<<0, 0>>, <<90, 10>>>>], t2 |-> [name |-> "path2", rob |-> "C", rns |-> "all", p |-> <<<<10, 20>>>>]]]
MInit == i = 1 /\ it = Items /\ sc = [NoScene EXCEPT !.name = "room"] /\ files = E0 /\ hist = Made
Do(e) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1
MNext ==
  \/ \E k \in Kinds : \E x \in DOMAIN it[k] : \/ Do([op |-> "sreg", k |-> k, x |-> x])
                                              \/ Do([op |-> "sdereg", k |-> k, x |-> x])
  \/ \E k \in Kinds, n \in {"r", "a", "set", "path"} : (Find(k, n) # "" \/ k = "ob") /\ Do([op |-> "sderegn", k |-> k, nm |-> n])
  \/ \E s \in DOMAIN it.se, x \in {<<"ob", "o1">>, <<"ob", "o2">>, <<"mo", "m1">>} :
       \/ Do([op |-> "ssadd", s |-> s, k |-> x[1], x |-> x[2], res |-> ~Elem(x, Members(s))])
       \/ Do([op |-> "ssrem", s |-> s, k |-> x[1], x |-> x[2], res |-> Elem(x, Members(s))])
  \/ Do([op |-> "ssall", s |-> "s1", t |-> "s2", res |-> AddAll(Members("s1"), Members("s2"))[2]])
  \/ \E c \in DOMAIN it.cf : \/ Do([op |-> "sregc", r |-> it.cf[c].rob, cs |-> <<c>>])
                             \/ Do([op |-> "sderegc", r |-> it.cf[c].rob, c |-> c])
  \/ Do([op |-> "sregc", r |-> "A", cs |-> <<"c2", "c1">>])
  \/ Do([op |-> "sderegcn", r |-> "A", nm |-> "home"])
  \/ Do([op |-> "sq", x |-> "A", m |-> [j1 |-> 30]])
  \/ Do([op |-> "spose", x |-> "C", p |-> P2])
  \/ Do([op |-> "smove", k |-> "mo", x |-> "m1", p |-> IdPose])
View == <<it, sc>>
Bound == TLCGet("level") < MaxLevel
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
Ev == hist'[Len(hist')]
Frame == [][Ev.op \in {"sreg", "sdereg", "sderegn", "sregc", "sderegc", "sderegcn"} => it' = it]_mvars
Other == [][Ev.op \in {"sreg", "sdereg", "sderegn"} => \A k \in Kinds \ {Ev.k} : sc'[k] = sc[k]]_mvars
(* what was registered stays registered and in order until it is deregistered *)
Stays == [][Ev.op = "sreg" => \A k \in Kinds : SubSeq(sc'[k], 1, Len(sc[k])) = sc[k]]_mvars
=============================================================================
