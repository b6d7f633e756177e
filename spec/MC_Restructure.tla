-------------------------- MODULE MC_Restructure --------------------------
(* A branched robot is moved, placed, restructured in every way, and the copy  *)
(* is compared with the original in every configuration of the joints.         *)
EXTENDS RobotsTrace

CONSTANTS MaxLevel, Sim
VARIABLE hist
mvars == <<rob, cfg, setsX, hist, i>>

None_ == [x \in {} |-> 0]
NoRate == [v |-> -1, ul |-> "", ut |-> "", ua |-> ""]
Ph(m) == [def |-> m > 0, mass |-> m, um |-> "kg", comdef |-> m > 0, com |-> <<10,0,20>>, ul |-> "mm", in |-> <<>>, uw |-> "", uil |-> "", sim |-> "", ign |-> <<>>, fr |-> -1000]
Plain(par, tf, m, sn) == [par |-> par, jt |-> "none", ax |-> <<0,0,1>>, free |-> FALSE, off |-> 0, init |-> 0, lim |-> [u |-> "none"], tf |-> tf,
               vel |-> NoRate, acc |-> NoRate, tor |-> [v |-> -1, ul |-> ""], prop |-> None_, ph |-> Ph(m), sens |-> None_, vis |-> "", col |-> "", box |-> <<90,120,150>>]
Rev(nd, ax) == [nd EXCEPT !.jt = "revolute", !.ax = ax, !.lim = [lo |-> -180, hi |-> 180, u |-> "degree"]]
Pris(nd, ax) == [nd EXCEPT !.jt = "prismatic", !.ax = ax, !.lim = [lo |-> -100, hi |-> 100, u |-> "mm"]]
T(x, y, z) == [k |-> "trans", v |-> <<x, y, z>>, u |-> "mm"]
R(x, y, z) == [k |-> "rpy", v |-> <<x, y, z>>, u |-> "degree"]
Desc == [type |-> "MR", root |-> "base",
  nodes |-> [base |-> Plain("", <<T(0,10,0)>>, 2, None_), j1 |-> Rev(Plain("base", <<T(20,0,0), R(90,0,0)>>, 1, None_), <<0,0,1>>),
             link |-> Plain("j1", <<T(0,0,50)>>, 0, None_), j2 |-> Pris(Plain("link", <<R(0,90,0)>>, 3, None_), <<0,1,0>>),
             arm |-> Rev(Plain("link", <<T(0,-30,0)>>, 1, None_), <<1,0,0>>), hand |-> Plain("arm", <<T(0,0,70), R(0,0,90)>>, 1, None_),
             j3 |-> Rev(Plain("j2", <<T(5,0,0), R(0,0,-90)>>, 1, None_), <<0,1,0>>), tip |-> Plain("j3", <<T(0,0,25), R(90,0,0)>>, 0, None_)],
  rns |-> [all |-> [nodes |-> <<"j1", "j2", "j3">>, root |-> "base", tcp |-> "tip"], low |-> [nodes |-> <<"j2", "j3">>, root |-> "j2", tcp |-> "j3"],
           one |-> [nodes |-> <<"arm">>, root |-> "arm", tcp |-> "hand"]],
  eef |-> None_, inc |-> <<>>]
Full(id, name) == [x \in {id} |-> [name |-> name]]
Do(e) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1
Vals == { [j1 |-> a, j2 |-> b, j3 |-> c, arm |-> d] : a \in {0, 90}, b \in {0, 40}, c \in {0, -90}, d \in {0, 180} }
One(S) == IF Sim THEN {RandomElement(S)} ELSE S
P1 == <<0,-1,0, 1,0,0, 0,0,1, 100,0,0>>
Ref(e) == IF e.op \in {"inv", "chain2"} THEN IF e.op = "inv" THEN e.n ELSE e.n2 ELSE "-"
Made == { k \in 1..Len(hist) : hist[k].op \in {"inv", "chain2", "subset", "unite"} /\ hist[k].ok }
How == hist[CHOOSE k \in Made : TRUE]
Now == hist[Len(hist)]

MInit == i = 1 /\ rob = None_ /\ cfg = None_ /\ setsX = None_ /\ hist = <<[op |-> "reset"]>>
(* joints that are frozen in the copy keep their values in the original *)
Common(m) == [n \in DOMAIN m \cap Joints(rob["B"]) |-> m[n]]
MNext ==
  \/ DOMAIN rob = {} /\ Do([op |-> "load", r |-> "A", file |-> "@A", how |-> 0, desc |-> Desc, ok |-> TRUE, res |-> TRUE, full |-> Full("A", "MR")])
  \/ /\ "A" \in DOMAIN rob /\ "B" \notin DOMAIN rob
     /\ \/ \E m \in One(Vals) : Now.op # "qmap" /\ Do([op |-> "qmap", r |-> "A", how |-> 0, m |-> m])
        \/ Now.op # "pose" /\ Do([op |-> "pose", r |-> "A", p |-> P1])
        \/ Do([op |-> "inv", r |-> "A", t |-> "B", n |-> "tip", b1 |-> TRUE, b2 |-> TRUE, ok |-> TRUE, res |-> TRUE])
        \/ \E n \in {"base", "j1", "link", "j2", "j3", "hand"} : Do([op |-> "chain2", r |-> "A", t |-> "B", n1 |-> n, n2 |-> "tip", ok |-> n # "hand", res |-> n # "hand"])
        \/ \E s \in {"all", "low", "one"} : Do([op |-> "subset", r |-> "A", t |-> "B", s |-> s, ok |-> TRUE, res |-> TRUE])
        \/ \E ns \in {<<"j1">>, <<"arm">>, <<"j2", "arm">>, <<"link", "j3">>} : Do([op |-> "unite", r |-> "A", t |-> "B", ns |-> ns, ok |-> TRUE, res |-> TRUE])
  \/ "B" \in DOMAIN rob /\ \E m \in One(Vals) :
       Do([op |-> "geo", r |-> "A", t |-> "B", n |-> Ref(How), m |-> Common(m), b |-> FALSE, ok |-> TRUE, res |-> 0])
  \/ "B" \in DOMAIN rob /\ Do([op |-> "pose", r |-> "A", p |-> P1])

View == <<rob, Now.op>>
Bound == TLCGet("level") < MaxLevel
(* the relative poses of the nodes are the original ones for every configuration; the branch at the reversed joint is exempt *)
Shape == Now.op = "geo" =>
  LET a == rob["A"]  b == rob["B"] IN
  GeomKept(a, b, IF Ref(How) = "-" THEN CHOOSE x \in Nodes(a) \cap Nodes(b) : TRUE ELSE Ref(How))
(* bodies are neither lost nor doubled, where the whole robot is kept *)
Total(r) == MassOf(r, Nodes(r))
Bodies == ("B" \in DOMAIN rob /\ How.op \in {"subset", "unite"}) => Total(rob["A"]) = Total(rob["B"])
TreeOK == \A id \in DOMAIN rob : LET r == rob[id] IN
            Cardinality({ n \in Nodes(r) : N(r, n).par = "" }) = 1 /\ Sub(r, r.st.root) = Nodes(r)
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
