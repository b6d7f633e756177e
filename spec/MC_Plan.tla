------------------------------ MODULE MC_Plan -------------------------------
(* Small instance of planning: a tool in the plane, an obstacle in the middle  *)
(* of the lattice of configurations.  RRT grows one tree from the start,       *)
(* BiRRT two trees from start and goal; random configurations are any of the   *)
(* lattice.  Checked: trees consist of sound ways, a solution leads from start *)
(* to goal soundly, there is none after a failure, and the number of cycles.   *)
EXTENDS Plan, TLC, Json

CONSTANT MaxLevel, Sim, MaxC, Kind
VARIABLES ga, gb, run, hist
mvars == <<env, sp, pa, pl, px, wa, ga, gb, run, hist>>
Xs == {-400, 0, 400}
Cs == { <<x, y>> : x \in Xs, y \in Xs }
Good == Cs \ {<<0, 0>>}
EndPts == {<<-400, 0>>, <<0, 0>>, <<400, 0>>, <<400, 400>>}
St == 500
H(r) == hist' = IF Sim THEN Append(hist, r) ELSE hist
KeepE == UNCHANGED <<env, sp, pa, px, wa>>
Idle == [on |-> FALSE, cyc |-> 0, turn |-> 0]

MInit == /\ env = [ax |-> <<1, 2>>, hb |-> <<30, 30, 300>>, p0 |-> <<0, 0, 0>>, lim |-> <<<<-450, 450>>, <<-450, 450>>>>, obs |-> <<[c |-> <<0, 0, 0>>, h |-> <<100, 100, 100>>]>>]
         /\ sp = [s \in {"S"} |-> [kind |-> "sampled", lo |-> <<-450, -450>>, hi |-> <<450, 450>>, w |-> <<1, 1>>, use |-> FALSE, samp |-> 1000, dcd |-> 200, cap |-> 2000, used |-> {}, con |-> <<>>]]
         /\ pa = [x \in {} |-> 0] /\ px = [x \in {} |-> 0] /\ wa = [m |-> "", at |-> 0]
         /\ pl = [m \in {"M"} |-> [k |-> Kind, s |-> "S", ma |-> "extend", mb |-> "extend", p |-> 10, step |-> St, maxc |-> MaxC,
                                   start |-> <<>>, sok |-> FALSE, goal |-> <<>>, gok |-> FALSE, sol |-> <<>>, to |-> FALSE]]
         /\ ga = <<>> /\ gb = <<>> /\ run = Idle /\ hist = <<>>

Yes(c) == Acceptable("M", c) = "yes"
Starts(c) == SetStart("M", c, Yes(c)) /\ ga' = (IF Yes(c) THEN <<[q |-> c, par |-> 0]>> ELSE ga) /\ UNCHANGED <<gb, run>> /\ KeepE /\ H([op |-> "mstart", m |-> "M", c |-> c])
Goals(c) == SetGoal("M", c, Yes(c)) /\ gb' = (IF Yes(c) /\ Kind = "birrt" THEN <<[q |-> c, par |-> 0]>> ELSE gb) /\ UNCHANGED <<ga, run>> /\ KeepE /\ H([op |-> "mgoal", m |-> "M", c |-> c])
Plans == /\ H([op |-> "mplan", m |-> "M", seed |-> Len(hist), vis |-> TRUE, q |-> "q"]) /\ UNCHANGED <<ga, gb>> /\ KeepE
         /\ IF Ready("M") /\ ~Sim THEN run' = [on |-> TRUE, cyc |-> 0, turn |-> 0] /\ pl' = [pl EXCEPT !["M"].sol = <<>>]
            ELSE run' = run /\ Planned("M", FALSE, <<>>)
Resets == ResetPlanner("M") /\ ga' = <<>> /\ gb' = <<>> /\ UNCHANGED run /\ KeepE /\ H([op |-> "mreset", m |-> "M"])

(* one extension of tree g towards c: the new tree, whether c was reached, and the node *)
Nearest(g, c) == { k \in 1..Len(g) : \A j \in 1..Len(g) : Dist("S", g[k].q, c, FALSE) <= Dist("S", g[j].q, c, FALSE) }
Extend(g, k, c) ==
  LET L == Dist("S", g[k].q, c, TRUE)
      n == IF L <= 10 * St THEN c ELSE At(g[k].q, c, 10 * St, L)
  IN IF L = 0 THEN [g |-> g, ok |-> TRUE, at |-> k, new |-> TRUE]
     ELSE IF Segment("S", g[k].q, n) = "yes" THEN [g |-> Append(g, [q |-> n, par |-> k]), ok |-> n = c, at |-> Len(g) + 1, new |-> TRUE]
     ELSE [g |-> g, ok |-> FALSE, at |-> k, new |-> FALSE]
RECURSIVE ToRoot(_, _)
ToRoot(g, k) == IF g[k].par = 0 THEN <<g[k].q>> ELSE <<g[k].q>> \o ToRoot(g, g[k].par)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Done(p) == run' = Idle /\ Planned("M", TRUE, p)
More == IF run.cyc + 1 >= pl["M"].maxc THEN run' = Idle /\ Planned("M", FALSE, <<>>)
        ELSE run' = [run EXCEPT !.cyc = @ + 1, !.turn = 1 - @] /\ UNCHANGED pl
GrowOne == \E c \in Good \cup {pl["M"].goal} : \E k \in Nearest(ga, c) :
             LET x == Extend(ga, k, c) IN
             /\ ga' = x.g /\ UNCHANGED gb
             /\ IF x.ok /\ c = pl["M"].goal THEN Done(Rev(ToRoot(x.g, x.at))) ELSE More
GrowTwo == LET A == IF run.turn = 0 THEN ga ELSE gb  B == IF run.turn = 0 THEN gb ELSE ga IN
           \E c \in Good : \E k \in Nearest(A, c) :
             LET x == Extend(A, k, c) IN
             IF ~x.new THEN UNCHANGED <<ga, gb>> /\ More
             ELSE \E l \in Nearest(B, x.g[x.at].q) :
                    LET y == Extend(B, l, x.g[x.at].q)
                    IN /\ ga' = (IF run.turn = 0 THEN x.g ELSE y.g) /\ gb' = (IF run.turn = 0 THEN y.g ELSE x.g)
                       /\ IF y.ok THEN Done(LET p == IF run.turn = 0 THEN ToRoot(x.g, x.at) ELSE ToRoot(y.g, y.at)
                                                q == IF run.turn = 0 THEN ToRoot(y.g, y.at) ELSE ToRoot(x.g, x.at)
                                            IN Rev(p) \o SubSeq(q, 2, Len(q)))
                          ELSE More
Grow == run.on /\ (IF Kind = "rrt" THEN GrowOne ELSE GrowTwo) /\ KeepE /\ UNCHANGED hist
Stop == run.on /\ run' = Idle /\ Planned("M", FALSE, <<>>) /\ UNCHANGED <<ga, gb, hist>> /\ KeepE
MNext == \/ ~run.on /\ (\E c \in EndPts : Starts(c) \/ Goals(c))
         \/ ~run.on /\ (Plans \/ Resets)
         \/ Sim /\ UNCHANGED <<env, sp, pa, pl, px, wa, ga, gb, run>> /\ (H([op |-> "minit", m |-> "M"]) \/ H([op |-> "mtree", m |-> "M"]) \/ H([op |-> "msol", m |-> "M", q |-> "z"]))
         \/ Grow \/ Stop
Bound == Len(ga) + Len(gb) <= MaxLevel
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))

(* invariants *)
SoundTree(g) == \A k \in 1..Len(g) : Valid("S", g[k].q, 0) = "yes" /\ (g[k].par # 0 => g[k].par < k /\ Segment("S", g[g[k].par].q, g[k].q) = "yes")
Trees == SoundTree(ga) /\ SoundTree(gb)
Roots == pl["M"].sok => ga[1].q = pl["M"].start
Roots2 == pl["M"].gok /\ Kind = "birrt" => gb[1].q = pl["M"].goal
Cycles == run.on => run.cyc < pl["M"].maxc
(* when a plan ends with a solution, it is one; a failure leaves none *)
Solved == [][(run.on /\ ~run'.on) => (pl'["M"].sol = <<>> \/ (LET p == pl'["M"].sol IN
             /\ p[1] = pl["M"].start /\ p[Len(p)] = pl["M"].goal
             /\ \A k \in 1..Len(p)-1 : Segment("S", p[k], p[k+1]) # "no"))]_mvars
OnlyByPlanning == [][pl'["M"].sol # pl["M"].sol => pl'["M"].sol = <<>> \/ run.on]_mvars
=============================================================================
