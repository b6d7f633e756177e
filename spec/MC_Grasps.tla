------------------------------ MODULE MC_Grasps ------------------------------
(* Bounded exhaustive exploration of Grasps.tla and behaviours for the real    *)
(* code.  osave and oload come in pairs: what is loaded is what was stored.    *)
EXTENDS GraspTrace
CONSTANTS MaxLevel, Sim
VARIABLE hist
mvars == <<gr, gs, ob, hist, i>>
P1 == <<0,-1,0, 1,0,0, 0,0,1, 100,0,0>>
P2 == <<1,0,0, 0,0,-1, 0,1,0, 0,50,-50>>
Ps == {IdPose, P1, P2}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
GIds == {"g1", "g2"} \cup (IF Sim THEN {"g3"} ELSE {})
SIds == {"s1", "s2"} \cup (IF Sim THEN {"s3"} ELSE {})
OIds == {"o1"}
MInit == i = 1 /\ gr = E0 /\ gs = E0 /\ ob = E0 /\ hist = <<[op |-> "reset"], [op |-> "grasping", ok |-> TRUE]>>
Do(e) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1
Small(f) == Cardinality(DOMAIN f) < 12
Cfgs == {E0, [x \in {"a", "b"} |-> 30]}
MNext ==
  \/ \E g \in GIds \ DOMAIN gr : \E rt \in Pick({"Holder", "Other"}), eef \in Pick({"left"}), p \in Pick({P1, P2}), pre \in Pick({"-", "open"}), c \in Pick(Cfgs) : Do([op |-> "gnew", g |-> g, nm |-> "g", rt |-> rt, eef |-> eef, p |-> p, cr |-> "auto", q |-> 4, pre |-> pre, m |-> c])
  \/ \E g \in Pick(DOMAIN gr \cup {"-"}) \ {"-"} : (\/ Do([op |-> "gname", g |-> g, nm |-> "h"]) \/ Do([op |-> "gtrafo", g |-> g, p |-> P2]) \/ Do([op |-> "gpre", g |-> g, pre |-> "-"]) \/ \E q \in Pick(0..8) : Do([op |-> "gqual", g |-> g, q |-> q]))
  \/ \E g \in Pick(DOMAIN gr \cup {"-"}) \ {"-"} : "c" \notin DOMAIN gr /\ Do([op |-> "gclone", g |-> g, t |-> "c"])
  \/ \E s \in SIds \ DOMAIN gs : \E rt \in Pick({"Holder", "Other"}) : Do([op |-> "gsnew", s |-> s, nm |-> "set", rt |-> rt, eef |-> "left", gs |-> <<>>])
  \/ \E s \in DOMAIN gs, g \in Pick(DOMAIN gr \cup {"-"}) \ {"-"} : (\/ Do([op |-> "gsadd", s |-> s, g |-> g]) \/ Do([op |-> "gsrem", s |-> s, g |-> g, res |-> In(g, gs[s].g)]))
  \/ \E s \in DOMAIN gs : (\/ Do([op |-> "gsremi", s |-> s, k |-> 0, res |-> Len(gs[s].g) > 0]) \/ Do([op |-> "gspre", s |-> s, pre |-> "wide"]) \/ Do([op |-> "gsclear", s |-> s, how |-> 0]))
  \/ \E s, t \in DOMAIN gs : gs[t].g # <<>> /\ Do([op |-> "gsinc", s |-> s, t |-> t])
  \/ \E s \in SIds \cap DOMAIN gs : "k" \notin DOMAIN gs /\ Do([op |-> "gsclone", s |-> s, t |-> "k"])
  \/ \E o \in OIds \ DOMAIN ob : Do([op |-> "onew", o |-> o, nm |-> "cup", p |-> P1])
  \/ \E o \in OIds \cap DOMAIN ob : \E s \in DOMAIN gs : (\/ Do([op |-> "oadd", o |-> o, s |-> s, ok |-> CanAdd(o, s)]) \/ Do([op |-> "oinc", o |-> o, s |-> s, ok |-> Target(o, s) # 0]))
  \/ \E o \in OIds \cap DOMAIN ob : "m" \notin DOMAIN ob /\ (Do([op |-> "oclone", o |-> o, t |-> "m", nm |-> "mug", ok |-> TRUE]) \/ Do([op |-> "oxml", o |-> o, t |-> "m", ok |-> TRUE]))
View == <<gr, gs, ob>>
Bound == TLCGet("level") < MaxLevel
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
GInv == SetsOK /\ ObsOK /\ BackAndForth(Ps)
(* what is done to one grasp, set or object leaves the others as they were *)
Ev == hist'[Len(hist')]
Frame == [][ /\ \A x \in DOMAIN gr : (Ev.op \in {"gname", "gtrafo", "gpre", "gqual"} /\ Ev.g # x) => gr'[x] = gr[x]
             /\ \A x \in DOMAIN gs : (Ev.op \in {"gsadd", "gsrem", "gsremi", "gsclear", "gsinc"} /\ Ev.s # x) => gs'[x] = gs[x]
             /\ \A x \in DOMAIN ob : (Ev.op \in {"omove", "oadd"} /\ Ev.o # x) => ob'[x] = ob[x]
             /\ Ev.op \in {"gclone", "gsclone", "oclone", "oxml", "oload"} => (\A x \in DOMAIN gr : gr'[x] = gr[x]) /\ (\A x \in DOMAIN gs : gs'[x] = gs[x]) /\ (\A x \in DOMAIN ob : ob'[x] = ob[x]) ]_mvars
=============================================================================
