------------------------------- MODULE MC_Ik -------------------------------
(* Bounded exploration of Ik.tla: an arm with three turning joints and a       *)
(* slide, a goal, constraints on its hand, and centres of mass.                *)
EXTENDS IkTrace
CONSTANTS MaxLevel, Sim
VARIABLES lv, hist
mvars == <<rb, dik, com, gik, obj, hier, con, cik, lv, hist, i>>
At(x, y, z) == <<1,0,0, 0,1,0, 0,0,1, x, y, z>>
Nn(par, typ, ax, lo, hi, loc, mass, c) == [par |-> par, typ |-> typ, ax |-> ax, lo |-> lo, hi |-> hi, free |-> FALSE, loc |-> loc, mass |-> mass, com |-> c, box |-> Zero3]
Nodes == [root |-> Nn("", "fixed", Zero3, 0, 0, IdPose, 2, Zero3),
          a |-> Nn("root", "rev", <<0,0,1>>, -180000, 180000, At(0, 0, 100), 1, <<20, 0, 0>>),
          b |-> Nn("a", "rev", <<0,1,0>>, -100000, 100000, At(50, 0, 100), 2, <<0, 0, 60>>),
          c |-> Nn("b", "pris", <<0,0,1>>, 0, 200000, At(0, 0, 150), 1, Zero3),
          d |-> Nn("c", "rev", <<1,0,0>>, -90000, 180000, <<0,1,0, 0,0,1, 1,0,0, 0, 30, 60>>, 3, <<-40, 0, 20>>),
          tcp |-> Nn("d", "fixed", Zero3, 0, 0, At(0, 30, 100), 0, Zero3)]
Chain == <<"a", "b", "c", "d">>
Robot0 == [nd |-> Nodes, pose |-> IdPose, q |-> [n \in {"a", "b", "c", "d"} |-> 0], eef |-> E0,
           set |-> [K |-> [n |-> Chain, tcp |-> "tcp"], P |-> [n |-> <<"d", "b">>, tcp |-> "d"], M |-> [n |-> SetToSeq(DOMAIN Nodes), tcp |-> "tcp"]]]
Vals == [a |-> {-180, -90, 0, 90, 180}, b |-> {-90, 0, 90}, c |-> {0, 100, 200}, d |-> {-90, 0, 90, 180}]
\* goals: where the hand is at some joint values
GoalQ == { [a |-> 0, b |-> 0, c |-> 0, d |-> 0], [a |-> 90, b |-> 0, c |-> 100, d |-> 0], [a |-> 0, b |-> 90, c |-> 0, d |-> -90] }
HandAt(g) == LET R == [rb EXCEPT !["A"].q = [n \in DOMAIN g |-> 1000 * g[n]], !["A"].pose = IdPose]
                 at[n \in DOMAIN Nodes] == Mul(IF Nodes[n].par = "" THEN IdPose ELSE at[Nodes[n].par], Mul(Nodes[n].loc, Motion(Nodes[n], IF n \in DOMAIN g THEN 1000 * g[n] ELSE 0)))
             IN at["tcp"]
GoalPoses == { HandAt(g) : g \in GoalQ }
Con(kind, p, sel, tp, tr) == [r |-> "A", set |-> "K", kind |-> kind, t |-> "tcp", p |-> p, sel |-> sel, tp |-> tp, tr |-> tr, v |-> <<>>, off |-> IdPose, ft |-> "-"]
MInit == /\ i = 1 /\ lv = 0 /\ hist = <<>>
         /\ rb = [A |-> Robot0] /\ gik = E0 /\ obj = E0 /\ hier = E0 /\ cik = E0
         /\ dik = [x |-> [r |-> "A", set |-> "K", coord |-> "-", mm |-> FALSE, maxs |-> 0, m |-> 1, goals |-> <<>>],
                   y |-> [r |-> "A", set |-> "P", coord |-> "b", mm |-> FALSE, maxs |-> 0, m |-> 1, goals |-> <<>>]]
         /\ com = [k |-> [r |-> "A", j |-> "K", b |-> "M", coord |-> "-", dims |-> 3, v |-> <<0, 0, 200>>, tp |-> 41]]
         /\ con = E0
Go(e) == lv' = lv + 1 /\ hist' = (IF Sim THEN Append(hist, e) ELSE hist) /\ i' = i
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Look(e) == Sim /\ Only({}) /\ Go(e)
MNext ==
  /\ lv < MaxLevel
  /\ \/ \E n \in Pick({"a", "b", "c", "d"}) : \E v \in Pick(Vals[n]) : rb.A.q[n] # 1000 * v /\ SetQ("A", n :> 1000 * v) /\ Only({"rb"}) /\ Go([op |-> "q", r |-> "A", ns |-> <<n>>, vs |-> <<v>>])
     \/ \E p \in Pick({IdPose, <<0,-1,0, 1,0,0, 0,0,1, 100, 0, 0>>}) : rb.A.pose # p /\ Place("A", p) /\ Only({"rb"}) /\ Go([op |-> "rpose", r |-> "A", p |-> p])
     \/ \E p \in Pick(GoalPoses), sel \in Pick({15, 7, 8, 4}) : AddGoal("x", [t |-> "tcp", p |-> p, sel |-> sel, tp |-> 5, tr |-> 10]) /\ Only({"dik"}) /\ dik' # dik
            /\ Go([op |-> "goal", x |-> "x", t |-> "-", sel |-> sel, tp |-> 5, tr |-> 10, p |-> p, v |-> FALSE])
     \/ \E p \in Pick(GoalPoses) : AddGoal("y", [t |-> "d", p |-> p, sel |-> 3, tp |-> 3, tr |-> 180]) /\ Only({"dik"}) /\ dik' # dik
            /\ Go([op |-> "goal", x |-> "y", t |-> "-", sel |-> 3, tp |-> 3, tr |-> 180, p |-> p, v |-> FALSE])
     \/ \E k \in Pick({"pos", "ori", "pose"}), p \in Pick(GoalPoses), sel \in Pick({15, 1, 4}) : con' = With(con, k, Con(k, p, sel, 5, 10)) /\ con' # con /\ Only({"con"})
            /\ Go([op |-> "con", k |-> k, r |-> "A", s |-> "K", kind |-> k, t |-> "tcp", p |-> p, sel |-> sel, tp |-> 5, tr |-> 10, vs |-> <<>>, off |-> IdPose, ft |-> "-"])
     \/ \E x \in Pick({"x", "y"}) : dik[x].goals # <<>> /\ \E e \in Pick({[op |-> "jacx", x |-> x, sc |-> 1], [op |-> "errx", x |-> x, d |-> 100], [op |-> "tolx", x |-> x, ts |-> <<dik[x].goals[1].t>>],
                                        [op |-> "jac", x |-> x, t |-> "tcp", sel |-> 15, sc |-> 1]}) : Look(e)
     \/ \E e \in Pick({[op |-> "com", r |-> "A", s |-> "M"], [op |-> "cjac", y |-> "k"], [op |-> "cerr", y |-> "k"]}) : Look(e)
     \/ con # E0 /\ \E k \in Pick(DOMAIN con) : Look([op |-> "ctol", k |-> k])

(* a slide moves everything behind it along its column of the Jacobian; the    *)
(* column of a hinge is a quarter turn of the lever                            *)
Bare == con = E0 /\ \A x \in DOMAIN dik : dik[x].goals = <<>>      \* what depends on the joints alone is looked at once
InvSlide == Bare => \A n \in Nds("A") : "c" \in Up("A", n) =>
              LET dlt == Turn3(Gp("A", "c"), Nodes["c"].ax)
                  x == Pos(Gp("A", n))
                  at[m \in Nds("A")] == Mul(IF Nodes[m].par = "" THEN rb.A.pose ELSE at[Nodes[m].par], Mul(Nodes[m].loc, Motion(Nodes[m], IF m = "c" THEN rb.A.q[m] + 10000 ELSE IF IsJ("A", m) THEN rb.A.q[m] ELSE 0)))
              IN Sub3(Pos(at[n]), x) = Mul3(10, ColPos("A", "c", n, x, "-")) /\ dlt = ColPos("A", "c", n, x, "-")
InvHinge == Bare => \A j \in {"a", "b", "d"}, n \in Nds("A") : j \in Up("A", n) =>
              LET x == Pos(Gp("A", n))
                  at[m \in Nds("A")] == Mul(IF Nodes[m].par = "" THEN rb.A.pose ELSE at[Nodes[m].par], Mul(Nodes[m].loc, Motion(Nodes[m], IF m = j THEN rb.A.q[m] + 90000 ELSE IF IsJ("A", m) THEN rb.A.q[m] ELSE 0)))
                  col == ColPos("A", j, n, x, "-")  ax == Turn3(Gp("A", j), Nodes[j].ax)
                  lever == Sub3(x, Pos(Gp("A", j)))
              IN \* a quarter turn replaces the part of the lever across the axis by the column
                 Sub3(Pos(at[n]), Pos(Gp("A", j))) = Add3(col, Mul3(Dot3(lever, ax), ax))
(* a goal on the pose is met iff its parts are *)
InvParts == \A k \in DOMAIN con : con[k].kind = "pose" =>
              (ConMet("A", con[k]) <=> (ConMet("A", [con[k] EXCEPT !.kind = "pos"]) /\ ConMet("A", [con[k] EXCEPT !.kind = "ori"])))
(* errors vanish exactly at the goal *)
InvZero == \A x \in DOMAIN dik : \A g \in ToSet_(dik[x].goals) :
              AtGoal("A", g) <=> (DiffSel(Sub3(Pos(g.p), Pos(Gp("A", g.t))), g.sel) = Zero3 /\ (OriSel(g.sel) => DeltaRot(Gp("A", g.t), g.p) = Trans(Pos(DeltaRot(Gp("A", g.t), g.p)))))
(* the centre of mass moves with the mass weighted Jacobian of its bodies; a   *)
(* slide shows it exactly                                                      *)
InvMass == Bare => LET bs == SetOf("A", "M")
               at[m \in Nds("A")] == Mul(IF Nodes[m].par = "" THEN rb.A.pose ELSE at[Nodes[m].par], Mul(Nodes[m].loc, Motion(Nodes[m], IF m = "c" THEN rb.A.q[m] + 10000 ELSE IF IsJ("A", m) THEN rb.A.q[m] ELSE 0)))
               moved == Sum3([k \in 1..Len(bs) |-> Mul3(Nodes[bs[k]].mass, Apply(at[bs[k]], Nodes[bs[k]].com))])
           IN Sub3(moved, MassPos("A", bs)) = Mul3(10, MassCol("A", bs, "c", "-"))
InvAcross == Bare => InvPerp
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
View == <<rb, dik, con>>
=============================================================================
