------------------------------ MODULE MC_Forest ------------------------------
(* Bounded exhaustive exploration of Forest.tla, and behaviours to be executed *)
(* on the real code (robot: data/mc_forest.xml).                               *)
EXTENDS ForestTrace
CONSTANTS MaxLevel, Objs, WithRobot
VARIABLE hist
mvars == <<el, hist, i>>

Nds == [base |-> [typ |-> "fixed", ax |-> <<0,0,0>>, loc |-> Trans(<<0,10,0>>), root |-> TRUE, sens |-> E0],
        j1 |-> [typ |-> "rev", ax |-> <<0,0,1>>, loc |-> Trans(<<20,0,0>>), root |-> FALSE, sens |-> [s1 |-> Trans(<<0,0,30>>)]],
        j2 |-> [typ |-> "pris", ax |-> <<1,0,0>>, loc |-> IdPose, root |-> FALSE, sens |-> E0]]
Par == [base |-> "", j1 |-> "base", j2 |-> "j1"]
G0 == IF WithRobot THEN LET R == RobotEls("R", Nds, Par) IN Update(R, "R", IdPose) ELSE E0
P1 == <<0,-1,0, 1,0,0, 0,0,1, 100,0,0>>
P2 == <<1,0,0, 0,0,-1, 0,1,0, 0,50,-50>>
Poses == {P1, P2}
Names == {"a", "b", "j2"}

MInit == i = 1 /\ el = G0
         /\ hist = <<[op |-> "reset"], [op |-> "forest"]>> \o (IF WithRobot THEN <<[op |-> "robot", r |-> "R"]>> ELSE <<>>)
Do(e) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1
Objects == { x \in Ids : el[x].k = "obj" }
Held == { x \in Objects : el[x].held }
Carriers == { x \in Ids : TRUE }
Rob == "R" \in Ids
MNext ==
  \/ \E x \in Objs \ Ids : \E n \in Names : \E p \in {P1} : Do([op |-> "new", x |-> x, nm |-> n, c |-> 0, p |-> p])
  \/ \E p \in Carriers, x \in Held : Do([op |-> "att", p |-> p, x |-> x, ok |-> TRUE, res |-> AttachRes(p, x)])
  \/ \E p \in Carriers, x \in Held : (x \in el[p].ch \/ p \in Objects) /\ Do([op |-> "det", p |-> p, x |-> x])
  \/ \E x \in Objects, p \in Poses : Do([op |-> "move", x |-> x, p |-> p])
  \/ MaxLevel > 10 /\ \E x \in Held, n \in {"a", "b"} : Do([op |-> "fname", x |-> x, nm |-> n])
  \/ \E x \in Objects : Do([op |-> "up", x |-> x])
  \/ \E x \in Held : Do([op |-> "drop", x |-> x])
  \/ \E x \in Held, b \in BOOLEAN : Do([op |-> "fupv", x |-> x, b |-> b])
  \/ \E x \in Held, y \in Objs \ Ids : Do([op |-> "oclonef", x |-> x, y |-> y, nm |-> "a", ok |-> TRUE])
  \/ Rob /\ ( \/ \E p \in Poses : Do([op |-> "rpose", r |-> "R", p |-> p])
              \/ \E v \in {0, 90} : Do([op |-> "fq", x |-> "R/j1", v |-> v])
              \/ "R/j2" \in Ids /\ Do([op |-> "fq", x |-> "R/j2", v |-> 30])
              \/ \E x \in Held, n \in {"R/base", "R/j1", "R/j2"} \cap Ids : Do([op |-> "fatt", r |-> "R", n |-> n, x |-> x, p |-> P2, ok |-> TRUE, res |-> CanFix("R", n, x)])
              \/ \E n \in { x \in Ids : el[x].k = "node" /\ x \notin {"R/j1"} } : Do([op |-> "fdet", r |-> "R", x |-> n, ok |-> TRUE, res |-> CanUnfix("R", n)])
              \/ Do([op |-> "robdel", r |-> "R"]) )

View == el
Bound == TLCGet("level") < MaxLevel
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
(* attaching and detaching never move anything *)
Ev == hist'[Len(hist')]
Still == [][Ev.op \in {"att", "det", "drop", "fupv", "oclonef", "fatt", "fdet", "robdel"} => \A x \in Ids \cap DOMAIN el' : el'[x].gp = el[x].gp]_mvars
(* a move moves exactly what is below the moved element *)
OnlyBelow == [][Ev.op = "move" => \A x \in Ids : x \notin Below(el, Ev.x) => el'[x] = el[x]]_mvars
(* after a move everything below a plain object is at the object *)
Together == [][Ev.op = "move" /\ CanMove(Ev.x) => \A x \in Below(el, Ev.x) : el'[x].gp = Ev.p /\ (el[x].uv => el'[x].vp = Ev.p) /\ (el[x].uc => el'[x].cp = Ev.p)]_mvars
=============================================================================
