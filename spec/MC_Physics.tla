----------------------------- MODULE MC_Physics -----------------------------
(* Bounded exploration of Physics.tla: a robot of three nodes with two wrappers *)
(* and two free objects are added, removed, switched, linked, put and stepped.  *)
EXTENDS PhysicsTrace
CONSTANTS MaxLevel, Sim
VARIABLES lv, hist
mvars == <<ph, lv, hist, i>>
At(x, y, z) == <<1,0,0, 0,1,0, 0,0,1, x, y, z>>
Turned(x, y, z) == <<0,-1,0, 1,0,0, 0,0,1, x, y, z>>
Nd(par, typ, loc, h, ign) == [par |-> par, typ |-> typ, loc |-> loc, mdl |-> h # <<>>, h |-> h, ign |-> ign]
Arm == [base |-> Nd("", "fixed", At(0,0,0), <<47,47,33>>, <<>>), mid |-> Nd("base", "rev", At(0,0,200), <<>>, <<>>),
        tip |-> Nd("mid", "pris", At(0,0,100), <<33,33,33>>, <<"base">>)]
Start == LET s == NewObject(NewObject(Empty, "a", 2, <<47,47,47>>, At(900,0,0)), "b", 0, <<71,33,47>>, At(0,900,0))
         IN [Wrap(Wrap(NewRobotP(s, "R", Arm), "w0", "R"), "w1", "R") EXCEPT !.cb = <<4>>]
MInit == i = 1 /\ lv = 0 /\ hist = <<>> /\ ph = Start
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Go(e, s) == ph' = s /\ lv' = lv + 1 /\ hist' = (IF Sim THEN Append(hist, e) ELSE hist) /\ i' = i
Xs == {"a", "b"}  Ws == {"w0", "w1"}
Things == Xs \cup {"w0/base", "w0/tip", "w1/tip"}
Places == {At(0,0,200), At(900,0,0), Turned(0,900,0), At(0,300,300)}
Held(w) == \E k \in 1..Len(ph.wr[w].at) : TRUE
HeldObj(x) == \E w \in Ws : \E k \in 1..Len(ph.wr[w].at) : ph.wr[w].at[k].x = x
MNext ==
  /\ lv < MaxLevel
  /\ \/ \E x \in Pick(Xs) : Go([op |-> "add", x |-> x], Add(ph, x))
     \/ \E x \in Pick(Xs) : ~HeldObj(x) /\ Go([op |-> "rem", x |-> x], Take(ph, x))
     \/ \E w \in Pick(Ws) : Go([op |-> "addr", w |-> w], AddRobot(ph, w))
     \/ \E w \in Pick(Ws) : ~Held(w) /\ Go([op |-> "remr", w |-> w], RemoveRobot(ph, w))
     \/ \E x, y \in Pick(Things) : x # y /\ \E o \in Pick({"off", "on"}) :
          Go([op |-> o, x |-> x, y |-> y], IF o = "off" THEN Off(ph, x, y) ELSE On(ph, x, y))
     \/ \E x \in Pick(Things) : \E o \in Pick({"off1", "on1", "resetc"}) :
          Go([op |-> o, x |-> x], IF o = "off1" THEN Off1(ph, x) ELSE IF o = "on1" THEN On1(ph, x) ELSE Renew(ph, x))
     \/ \E w \in Pick(Ws), b \in Pick({TRUE, FALSE}) : Go([op |-> "self", w |-> w, b |-> b], Self(ph, w, b))
     \/ \E w \in Pick(Ws), n \in Pick({"base", "mid", "tip", "none"}) :
          /\ "a" \in SetOf(ph.reg) /\ w \in SetOf(ph.regR) /\ Len(ph.wr[w].at) < 2
          /\ Go([op |-> "att", w |-> w, n |-> n, x |-> "a", b |-> FALSE], Attach(ph, w, n, "a"))
     \/ \E w \in Pick(Ws) : w \in SetOf(ph.regR) /\ Go([op |-> "det", w |-> w, x |-> "a", b |-> TRUE], Detach(ph, w, "a"))
     \/ \E x \in Pick(Xs), p \in Pick(Places) : Go([op |-> "pose", x |-> x, p |-> p], Pose(ph, x, p))
     \/ Go([op |-> "pos", x |-> "b", v |-> <<300,300,300>>], Position(ph, "b", <<300,300,300>>))
     \/ \E t \in Pick({0, 2}) : Go([op |-> "typ", x |-> "b", t |-> t], Type(ph, "b", t))
     \/ \E w \in Pick(Ws), n \in Pick({"mid", "tip"}) : Go([op |-> "act", w |-> w, n |-> n, v |-> 0, b |-> TRUE], ActPos(ph, w, n, 0))
     \/ \E w \in Pick(Ws) : Go([op |-> "actoff", w |-> w], ActModes(ph, w, {}))
     \/ \E d \in Pick({0, 8, 20}), k \in Pick({1, 3}) : Go([op |-> "step", dt |-> d, k |-> k, f |-> 8], StepWorld(ph, d, k, 8))
     \/ Go([op |-> "hits"], ph)
Good == WorldOK(ph)
(* a step at rest moves nothing; a removed thing takes part in nothing *)
Rest == [][lv' # lv => (Quiet(ph) /\ ph'.t # ph.t => ph'.mov = ph.mov /\ \A x \in Known(ph) : BodyAt(ph', x) = BodyAt(ph, x))]_mvars
Out == \A q \in Constraints(ph) : q \subseteq InWorld(ph)
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
View == ph
=============================================================================
