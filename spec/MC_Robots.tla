----------------------------- MODULE MC_Robots -----------------------------
(* Bounded exhaustive exploration of the robot specification, and (with        *)
(* -simulate) behaviours to be executed on the real code.  The robot is        *)
(* data/mc_robot.xml as recorded in data/mc_robot.json.                        *)
EXTENDS RobotsTrace

CONSTANTS MaxLevel, Kind      \* Kind: the operations explored
VARIABLE hist
mvars == <<rob, cfg, setsX, hist, i>>

R0 == ndJsonDeserialize("data/mc_robot.json")[1]
A0 == Adopt(R0.full.A, R0.st.A, PropOf(R0))

P1 == <<0,-1,0, 1,0,0, 0,0,1, 100,0,0>>
P2 == <<1,0,0, 0,0,-1, 0,1,0, 0,50,-50>>
Poses == {IdPose, P1, P2}
JV == [j1 |-> {-90, 0, 90, 200}, j2 |-> {-40, 0, 30}, j3 |-> {-180, 0, 90, 450}]
js == DOMAIN JV

Do(e) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1

Values(id) ==
  \/ \E n \in js \cap Nodes(rob[id]) : \E v \in JV[n] : \E o \in {"q", "qnou"} : Do([op |-> o, r |-> id, n |-> n, v |-> v, ok |-> TRUE])
  \/ \E a \in JV.j1, b \in JV.j2 : \E o \in {"qmap", "qcfg"} : Do([op |-> o, r |-> id, how |-> 0, m |-> [j1 |-> a, j2 |-> b]])
  \/ \E b \in JV.j2, c \in JV.j3 : Do([op |-> "qmap", r |-> id, how |-> 1, m |-> [j2 |-> b, j3 |-> c]])
  \/ "all" \in DOMAIN rob[id].st.rns /\ Len(rob[id].st.rns["all"].nodes) = 3 /\ \E a \in JV.j1, c \in JV.j3 : Do([op |-> "qset", r |-> id, how |-> 0, s |-> "all", vs |-> <<a, 0, c>>, ok |-> TRUE])
  \/ "lower" \in DOMAIN rob[id].st.rns /\ \E b \in JV.j2 : Do([op |-> "qset", r |-> id, how |-> 1, s |-> "lower", vs |-> <<b>>, ok |-> TRUE])
  \/ "all" \in DOMAIN rob[id].st.rns /\ \E b \in JV.j2 : Do([op |-> "qset", r |-> id, how |-> 1, s |-> "all", vs |-> <<b>>, ok |-> FALSE])
  \/ "lower" \in DOMAIN rob[id].st.rns /\ \E a \in JV.j1 : Do([op |-> "qcfgset", r |-> id, how |-> 0, s |-> "lower", m |-> [j1 |-> a, j2 |-> 10]])
  \/ Do([op |-> "apply", r |-> id])

Poses_(id) ==
  \/ \E p \in Poses : \E o \in {"pose", "poseno"} : Do([op |-> o, r |-> id, p |-> p])
  \/ \E p \in Poses, n \in {"j1", "j3"} \cap Nodes(rob[id]) : Do([op |-> "posenode", r |-> id, n |-> n, p |-> p, res |-> 0])
  \/ Do([op |-> "posnode", r |-> id, n |-> "j3", v3 |-> <<10, 20, 30>>, res |-> 0])
  \/ Do([op |-> "loc", r |-> id, n |-> "j2", p |-> P2])

Switches(id) ==
  \/ \E b \in BOOLEAN : Do([op |-> "upv", r |-> id, b |-> b]) \/ Do([op |-> "upc", r |-> id, b |-> b])
  \/ "j1" \in Nodes(rob[id]) /\ \E b \in BOOLEAN : Do([op |-> "upvn", r |-> id, n |-> "j1", b |-> b])

Settings(id) == "j1" \in Nodes(rob[id]) /\
(
  \/ Do([op |-> "limits", r |-> id, n |-> "j1", lo |-> -45, hi |-> 45]) \/ Do([op |-> "limits", r |-> id, n |-> "j2", lo |-> 0, hi |-> 5])
  \/ \E b \in BOOLEAN : Do([op |-> "enforce", r |-> id, n |-> "j1", b |-> b])
  \/ \E f \in {0, 1, 2} : Do([op |-> "prop", r |-> id, n |-> "j1", t |-> "j3", f |-> f])
  \/ Do([op |-> "prop", r |-> id, n |-> "j1", t |-> "j3", f |-> -2])
)

Copies(id) ==
  \/ "B" \notin DOMAIN rob /\ \E sc \in {1000, 2000} : Do([op |-> "clone", r |-> id, t |-> "B", sc |-> sc])
  \/ "B" \notin DOMAIN rob /\ \E n \in {"j1", "j2"} \cap Nodes(rob[id]) : \E b \in BOOLEAN : Do([op |-> "sub", r |-> id, t |-> "B", n |-> n, b1 |-> TRUE, b2 |-> b])
  \/ "B" \in DOMAIN rob /\ Do([op |-> "del", r |-> "B"])

Sets(id) ==
  \/ \E ns \in { <<"j1">>, <<"j2", "j3">>, <<"j3", "j1">>, <<"j1", "j2", "j3">> } : \E reg \in BOOLEAN : \E root \in {"-", "base", "j2"} :
       Do([op |-> "nsnew", r |-> id, s |-> "n1", how |-> 1, ns |-> ns, root |-> root, tcp |-> "-", reg |-> reg,
           ok |-> ~(reg /\ "n1" \in DOMAIN rob[id].st.rns), res |-> FALSE])
  \/ SetKey(id, "n1") \in DOMAIN setsX /\ Do([op |-> "nsreg", r |-> id, s |-> "n1"])
  \/ \E s \in DOMAIN rob[id].st.rns : Do([op |-> "nsdel", r |-> id, s |-> s])
  \/ \E s \in DOMAIN rob[id].st.rns : SetLen(id, s) > 0 /\
       Do([op |-> "qset", r |-> id, how |-> 0, s |-> s, vs |-> [k \in 1..SetLen(id, s) |-> 15], ok |-> TRUE])

Cfgs(id) ==
  \/ \E m \in { [j1 |-> 90], [j2 |-> -10, j3 |-> 90], [j1 |-> 0, j2 |-> 30, j3 |-> -90] } : \E k \in {"c1", "c2"} :
       Do([op |-> "cnew", c |-> k, r |-> id, how |-> 0, m |-> m, ok |-> TRUE])
  \/ Do([op |-> "cnew", c |-> "c1", r |-> id, how |-> 4, m |-> [x \in {} |-> 0], ok |-> TRUE])
  \/ \E k \in DOMAIN cfg, n \in js : Do([op |-> "cset", c |-> k, how |-> 1, n |-> n, v |-> 20, ok |-> TRUE, res |-> TRUE])
  \/ \E k \in DOMAIN cfg : Do([op |-> "capply", c |-> k, how |-> 0, r |-> id, ok |-> TRUE, res |-> TRUE])
  \/ \E k \in DOMAIN cfg : Do([op |-> "cclone", c |-> k, d |-> "c3", r |-> IF "B" \in DOMAIN rob THEN "B" ELSE "A"])
  \/ \E k \in DOMAIN cfg : Do([op |-> "ctcp", c |-> k, n |-> "j3", b |-> TRUE, res |-> TRUE])

Loaded == [op |-> "load", r |-> "A", file |-> "@mc_robot", prop |-> [j1 |-> [j3 |-> -1]]]
MInit == i = 1 /\ rob = [A |-> A0] /\ cfg = [x \in {} |-> 0] /\ setsX = [x \in {} |-> 0] /\ hist = <<[op |-> "reset"], Loaded>>
MNext == \E id \in DOMAIN rob :
  \/ Kind \in {"kin", "val", "copy", "sets", "cfg"} /\ Values(id)
  \/ Kind \in {"kin", "copy"} /\ Poses_(id)
  \/ Kind = "kin" /\ Switches(id)
  \/ Kind \in {"val", "copy"} /\ Settings(id)
  \/ Kind = "copy" /\ id = "A" /\ Copies(id)
  \/ Kind = "sets" /\ Sets(id)
  \/ Kind = "cfg" /\ (Cfgs(id) \/ (id = "A" /\ Copies(id)))

View == <<rob, cfg, setsX>>
Bound == TLCGet("level") < MaxLevel

----------------------------------------------------------------------------
(* properties of the specification *)
InLim == \A id \in DOMAIN rob : LET r == rob[id] IN
           \A n \in Nodes(r) : N(r, n).free => N(r, n).lo <= r.q[n] /\ r.q[n] <= N(r, n).hi
(* a joint that is driven by exactly one other joint follows it whenever the driver was updated *)
SetsOK == \A id \in DOMAIN rob : LET r == rob[id] IN \A s \in DOMAIN r.st.rns :
           LET x == r.st.rns[s] IN ToSet_(x.nodes) \cup {x.root, x.tcp} \subseteq Nodes(r) /\ CoversAll(r, x.root, x.nodes)
Closed == \A id \in DOMAIN rob : LET r == rob[id] IN
           \A n \in Nodes(r) : N(r, n).par = "" \/ N(r, n).par \in Nodes(r)
CfgIn == \A k \in DOMAIN cfg : cfg[k].rob \in DOMAIN rob => DOMAIN cfg[k].m \subseteq Nodes(rob[cfg[k].rob])
(* an action on one robot leaves every other robot as it is *)
Ev == hist'[Len(hist')]
Independent == [][\A id \in DOMAIN rob \cap DOMAIN rob' :
                    (Ev.op # "capply" /\ "r" \in DOMAIN Ev /\ Ev.r # id) => rob'[id] = rob[id]]_mvars
(* setting values never changes the description of the robot *)
Frame == [][ \A id \in DOMAIN rob \cap DOMAIN rob' :
               hist'[Len(hist')].op \in {"q", "qnou", "qmap", "qcfg", "qset", "qcfgset", "apply", "pose", "poseno", "posenode", "posnode", "capply"}
               => rob'[id].st = rob[id].st /\ rob'[id].prop = rob[id].prop ]_mvars

Emit == Len(hist) < 2 + MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
