-------------------------------- MODULE Plan --------------------------------
(* Motion planners (MotionPlanning/Planner: Rrt, BiRrt) and path processing    *)
(* (MotionPlanning/PostProcessing).                                            *)
(* pl : planner -> [k, s, ma, mb, p, step, maxc, start, sok, goal, gok, sol]   *)
(*      start, goal, sol are sequences of configurations, <<>> when there is   *)
(*      none; sok and gok tell whether start and goal were accepted            *)
(* px : processor -> [k, s, in, opt]  in the path it was made for, opt its     *)
(*      result so far, [has |-> FALSE] when there is none                      *)
(* wa : the watch: [on, w, m] stop asked of m at some evaluation               *)
EXTENDS Paths

VARIABLES pl, px, wa
pvars == <<pl, px, wa>>
PKeep == UNCHANGED pvars
NoOpt == [has |-> FALSE, p |-> <<>>]
UpdF(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

NewPlanner(m, k, s, ma, mb, p, step, maxc) ==
  pl' = UpdF(pl, m, [k |-> k, s |-> s, ma |-> ma, mb |-> mb, p |-> p, step |-> step, maxc |-> maxc,
                     start |-> <<>>, sok |-> FALSE, goal |-> <<>>, gok |-> FALSE, sol |-> <<>>, to |-> FALSE])
(* start and goal are accepted when they are valid, a refused one leaves the planner not initialized *)
Acceptable(m, c) == LET s == pl[m].s IN All3({ IF InBounds(s, c) THEN "yes" ELSE "no", Free(c, 0), Constr(s, c, 0) })
SetStart(m, c, ok) == pl' = [pl EXCEPT ![m].start = c, ![m].sok = ok]
SetGoal(m, c, ok) == pl' = [pl EXCEPT ![m].goal = c, ![m].gok = ok]
Ready(m) == pl[m].sok /\ pl[m].gok
ResetPlanner(m) == pl' = [pl EXCEPT ![m].start = <<>>, ![m].sok = FALSE, ![m].goal = <<>>, ![m].gok = FALSE, ![m].sol = <<>>]
Planned(m, r, p) == pl' = [pl EXCEPT ![m].sol = IF r THEN p ELSE <<>>]

(* a point, or a segment in small steps, does not penetrate obstacles or violate *)
(* constraints deeper than the resolution of the checks                         *)
Sound(s, q) == Free(q, sp[s].dcd + 4) # "no" /\ Constr(s, q, sp[s].dcd + 4) # "no"
SoundWay(s, a, b) == Opposite(a, b) \/ LET n == MinI(40, 2 + Dist(s, a, b, TRUE) \div (5 * sp[s].dcd)) IN \A k \in 0..n : Sound(s, At(a, b, k, n))
SoundPath(s, p) == \A k \in 1..Len(p) : InBoundsT(s, p[k], 1) # "no" /\ (IF k < Len(p) THEN SoundWay(s, p[k], p[k+1]) ELSE Sound(s, p[k]))
SolutionOK(m, p) == Len(p) >= 1 /\ p[1] = pl[m].start /\ p[Len(p)] = pl[m].goal /\ SoundPath(pl[m].s, p)
                    /\ \A k \in 1..Len(p)-1 : sp[pl[m].s].kind = "plain" \/ Opposite(p[k], p[k+1]) \/ 100 * Dist(pl[m].s, p[k], p[k+1], TRUE) <= 1060 * sp[pl[m].s].samp + 100 * LenTol(pl[m].s) + (IF "connect" \in {pl[m].ma, pl[m].mb} THEN 1000 * sp[pl[m].s].dcd ELSE 0)
(* nothing is in the way *)
Open_(s) == Len(env.obs) = 0 /\ Len(sp[s].con) = 0
MustSucceed(m) == LET P == pl[m] IN Open_(P.s) /\ ~P.to /\ ((P.k = "rrt" /\ P.ma = "complete" /\ P.p >= 30 /\ P.maxc >= 100) \/ (P.k = "birrt" /\ P.ma = "complete" /\ P.mb = "complete" /\ P.maxc >= 1))

----------------------------------------------------------------------------
(* processing *)
LenOfPts(s, p, W) == IF Len(p) < 2 THEN 0 ELSE SumTo([k \in 1..Len(p)-1 |-> Dist(s, p[k], p[k+1], W)], Len(p)-1)
ValidPts(s, p) == All3({ Segment(s, p[k], p[k+1]) : k \in 1..Len(p)-1 } \cup (IF Len(p) > 0 THEN {ValidIn(s, p[1], 2)} ELSE {}))
SameEnds(p, q) == (Len(p) = 0) = (Len(q) = 0) /\ (Len(p) > 0 => q[1] = p[1] /\ q[Len(q)] = p[Len(p)])
RECURSIVE SubSeqOf(_, _)
SubSeqOf(q, p) == IF Len(q) = 0 THEN TRUE ELSE IF Len(p) = 0 THEN FALSE ELSE IF Head(q) = Head(p) THEN SubSeqOf(Tail(q), Tail(p)) ELSE SubSeqOf(q, Tail(p))
LenFuzz(s, p, q) == ((LenTol(s) * (Len(p) + Len(q))) \div 4) + 10
SoundWays(s, p) == \A k \in 1..Len(p) : IF k < Len(p) THEN SoundWay(s, p[k], p[k+1]) ELSE Sound(s, p[k])
(* input p (a path of space s), output q *)
ProcessedOK(s, p, q) == SameEnds(p, q)
ShortcutOK(s, p, q) == /\ SameEnds(p, q)
                       /\ LenOfPts(s, q, TRUE) <= LenOfPts(s, p, TRUE) + LenFuzz(s, p, q)
                       /\ ValidPts(s, p) = "yes" => SoundWays(s, q)
                       /\ (\A k \in 1..Len(p) : InBoundsT(s, p[k], 1) = "yes") => \A k \in 1..Len(q) : InBoundsT(s, q[k], 1) # "no"
PrunedOK(s, p, q) == /\ ShortcutOK(s, p, q) /\ SubSeqOf(q, p)
                     /\ \A k \in 1..Len(q)-2 : Segment(s, q[k], q[k+2]) # "yes"
                     /\ ValidPts(s, p) = "yes" => ValidPts(s, q) # "no"
(* the part between positions k and l is replaced by the straight path *)
CutOK(s, p, k, l, q) ==
  LET m == Len(q) - (k + 1) - (Len(p) - l)
  IN /\ m >= 0 /\ SubSeq(q, 1, k+1) = SubSeq(p, 1, k+1)
     /\ SubSeq(q, k + 2 + m, Len(q)) = SubSeq(p, l+1, Len(p))
     /\ PathOf(s, p[k+1], p[l+1], SubSeq(q, k+1, k+2+m)) \/ (D2(s, p[k+1], p[l+1], TRUE) = 0 /\ m = 0)
Shorter(s, p, k, l) == LET a == Dist(s, p[k+1], p[l+1], TRUE)  b == LenOfPts(s, SubSeq(p, k+1, l+1), TRUE)  f == LenTol(s) + 4 * (l - k)
                       IN IF (a + f) * 100 < (b - f) * 99 THEN "yes" ELSE IF (a - f) * 100 > (b + f) * 99 THEN "no" ELSE "either"
CutAllowed(s, p, k, l) == All3({ Shorter(s, p, k, l), Segment(s, p[k+1], p[l+1]) })
NewProc(x, k, n) == px' = UpdF(px, x, [k |-> k, s |-> pa[n].s, in |-> pa[n].p, opt |-> NoOpt])
SetOpt(x, has, p) == px' = [px EXCEPT ![x].opt = [has |-> has, p |-> p]]
Current(x) == IF px[x].opt.has THEN px[x].opt.p ELSE px[x].in
=============================================================================
