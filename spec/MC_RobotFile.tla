---------------------------- MODULE MC_RobotFile ----------------------------
(* Bounded exhaustive exploration of robot descriptions: every description of  *)
(* the product below is loaded, moved, stored and loaded again.  With          *)
(* -simulate the behaviours are executed on the real code.                     *)
EXTENDS RobotsTrace

CONSTANTS MaxLevel, Sim
VARIABLE hist
mvars == <<rob, cfg, setsX, hist, i>>

None_ == [x \in {} |-> 0]
NoRate == [v |-> -1, ul |-> "", ut |-> "", ua |-> ""]
NoPh == [def |-> FALSE, mass |-> 0, um |-> "kg", comdef |-> FALSE, com |-> <<0,0,0>>, ul |-> "", in |-> <<>>, uw |-> "", uil |-> "", sim |-> "", ign |-> <<>>, fr |-> -1000]
Plain(par) == [par |-> par, jt |-> "none", ax |-> <<0,0,1>>, free |-> FALSE, off |-> 0, init |-> 0, lim |-> [u |-> "none"], tf |-> <<>>,
               vel |-> NoRate, acc |-> NoRate, tor |-> [v |-> -1, ul |-> ""], prop |-> None_, ph |-> NoPh, sens |-> None_, vis |-> "", col |-> "", box |-> <<90,120,150>>]

Tfs == { <<>>, <<[k |-> "trans", v |-> <<1,0,-2>>, u |-> "m"], [k |-> "rpy", v |-> <<90,0,90>>, u |-> "degree"]>>,
         <<[k |-> "rpy", v |-> <<0,90,180>>, u |-> "radian"], [k |-> "trans", v |-> <<30,0,50>>, u |-> "mm"]>>,
         <<[k |-> "dh", v |-> <<2, -1, 90, 180>>, u |-> "m", ua |-> "degree"]>>,
         <<[k |-> "mat", v |-> <<0,-1,0, 1,0,0, 0,0,1, 1,2,3>>, u |-> "m"]>>,
         <<[k |-> "quat", v |-> <<0,1,0,90>>, u |-> ""], [k |-> "dh", v |-> <<20, 10, 0, 90>>, u |-> "mm", ua |-> "radian"]>> }
Jts == { [jt |-> "revolute", lim |-> [lo |-> -90, hi |-> 180, u |-> "degree"], free |-> FALSE],
         [jt |-> "revolute", lim |-> [lo |-> -45, u |-> "radian"], free |-> FALSE],
         [jt |-> "revolute", lim |-> [hi |-> 90, u |-> "degree"], free |-> FALSE],
         [jt |-> "revolute", lim |-> [lo |-> 0, hi |-> 360, u |-> "radian"], free |-> TRUE],
         [jt |-> "revolute", lim |-> [u |-> "none"], free |-> FALSE],
         [jt |-> "prismatic", lim |-> [lo |-> -2, hi |-> 1, u |-> "m"], free |-> FALSE],
         [jt |-> "prismatic", lim |-> [lo |-> -2000, hi |-> 1000, u |-> "mm"], free |-> FALSE],
         [jt |-> "prismatic", lim |-> [hi |-> 2, u |-> "m"], free |-> FALSE] }
Phs == { NoPh, [NoPh EXCEPT !.def = TRUE, !.mass = 2000, !.um = "g", !.comdef = TRUE, !.com = <<1,0,2>>, !.ul = "m"],
         [NoPh EXCEPT !.def = TRUE, !.mass = 1, !.um = "kg", !.in = <<2000000,0,0, 0,1000000,0, 0,0,3000000>>, !.uil = "mm", !.sim = "dynamic", !.fr = 500] }
Mid(j, tf, off, init, ph) == [Plain("base") EXCEPT !.jt = j.jt, !.lim = j.lim, !.free = j.free, !.tf = tf, !.off = off, !.init = init, !.ph = ph]
DescOf(j, tf, off, init, ph, tf2) ==
  [type |-> "MF", root |-> "base", nodes |-> [base |-> Plain(""), mid |-> Mid(j, tf, off, init, ph), tip |-> [Plain("mid") EXCEPT !.tf = tf2]],
   rns |-> [all |-> [nodes |-> <<"mid", "tip">>, root |-> "base", tcp |-> "tip"]], eef |-> None_, inc |-> <<>>]
Tf2s == {<<>>, <<[k |-> "trans", v |-> <<0,0,10>>, u |-> ""]>>}
Descs == { DescOf(j, tf, off, init, ph, tf2) : j \in Jts, tf \in Tfs, off \in {0, 90}, init \in {0, 90}, ph \in Phs, tf2 \in {<<>>, <<[k |-> "trans", v |-> <<0,0,10>>, u |-> ""]>>} }

One(S) == IF Sim THEN {RandomElement(S)} ELSE S     \* simulation draws one description
(* unequal values of one set are not comparable in TLC, hence the names *)
Full(id, name) == [x \in {id} |-> [name |-> name]]
Do(e) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1
MInit == i = 1 /\ rob = None_ /\ cfg = None_ /\ setsX = None_ /\ hist = <<[op |-> "reset"]>>
MNext ==
  \/ /\ "A" \notin DOMAIN rob
     /\ \E j \in One(Jts), tf \in One(Tfs), off \in One({0, 90}), init \in One({0, 90}), ph \in One(Phs), tf2 \in One(Tf2s) :
          Do([op |-> "load", r |-> "A", file |-> "@A", how |-> 0, desc |-> DescOf(j, tf, off, init, ph, tf2), ok |-> TRUE, res |-> TRUE, full |-> Full("A", "MF")])
  \/ "A" \in DOMAIN rob /\ \E v \in {-90, 0, 45, 180, 1500} : Do([op |-> "q", r |-> "A", n |-> "mid", v |-> v, ok |-> TRUE])
  \/ "A" \in DOMAIN rob /\ "B" \notin DOMAIN rob /\ hist[Len(hist)].op # "save" /\
       Do([op |-> "save", r |-> "A", dir |-> "@D", file |-> "@B", b1 |-> TRUE, b2 |-> TRUE, b3 |-> TRUE, ok |-> TRUE, res |-> TRUE])
  \/ hist[Len(hist)].op = "save" /\ Do([op |-> "load", r |-> "B", file |-> "@B", how |-> 0, from |-> "A", b1 |-> TRUE, b2 |-> TRUE, b3 |-> TRUE, ok |-> TRUE, res |-> TRUE, full |-> Full("B", "MF")])

View == <<rob, hist[Len(hist)].op>>
Bound == TLCGet("level") < MaxLevel
LimitsOrdered == \A id \in DOMAIN rob : \A n \in Nodes(rob[id]) : N(rob[id], n).lo <= N(rob[id], n).hi
(* storing keeps everything the file describes; storing twice is storing once *)
StoreKeeps == \A id \in DOMAIN rob :
  LET r == rob[id]  s == StoredRobot(r, "x", TRUE, TRUE, TRUE)  t == StoredRobot(s, "x", TRUE, TRUE, TRUE)
  IN /\ t = s /\ \A n \in Nodes(r) : s.st.nodes[n] = r.st.nodes[n] /\ s.st.rns = r.st.rns /\ s.prop = r.prop
ValuesIn == \A id \in DOMAIN rob : \A n \in Joints(rob[id]) : LET r == rob[id] IN N(r, n).lo <= r.q[n] /\ r.q[n] <= N(r, n).hi
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
