------------------------------- MODULE Hands -------------------------------
(* End effectors (VirtualRobot/EndEffector): closing and opening until contact *)
(* on robots and boxes in integers, on top of Robots.tla and Boxes.tla.        *)
(*                                                                             *)
(* hand: "robot/eef" -> [rob, act : Seq([nm, nd : Seq([n, dir, col])]),        *)
(*                       stat : Seq(node), pre : name -> (node -> value)]      *)
(*   dir: joint units per unit step (90 degrees / millimetres)                 *)
(*   col: 0 nothing, 1 other actors, 2 static part, 3 both is what a node is   *)
(*        checked against; objects always unless it is 0                       *)
(* shp : node "robot/node" or object -> sequence of boxes                      *)
(* obj : object -> pose                                                        *)
(* oset: set -> sequence of objects                                            *)
EXTENDS Robots, Boxes

VARIABLES hand, shp, obj, oset
hvars == <<rob, hand, shp, obj, oset>>

HPut(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Upd(r, vals, T) == Update(Write(r, vals), T)
SetQ(r, n, v) == Upd(r, n :> v, Sub(r, n))

----------------------------------------------------------------------------
(* geometry: nodes are <<"n", robot id, node>>, objects <<"o", object>>; R is  *)
(* the population of robots at the moment                                      *)
KeyOf(x) == IF x[1] = "n" THEN x[2] \o "/" \o x[3] ELSE x[2]
PoseOf(R, x) == IF x[1] = "n" THEN R[x[2]].cp[x[3]] ELSE obj[x[2]]
HasModel(x) == KeyOf(x) \in DOMAIN shp
BoxesAt(R, x) == IF HasModel(x) THEN { Place(PoseOf(R, x), shp[KeyOf(x)][k]) : k \in 1..Len(shp[KeyOf(x)]) } ELSE {}
Touch(R, x, y) == IF ~HasModel(x) \/ ~HasModel(y) THEN "no"
                  ELSE IF PoseOf(R, x) = Unknown \/ PoseOf(R, y) = Unknown THEN "either"
                  ELSE Sum3({ Meet(b, d) : b \in BoxesAt(R, x), d \in BoxesAt(R, y) })
Objs_(S) == { <<"o", S[k]>> : k \in 1..Len(S) }

Bit(col, m) == IF m = 1 THEN col % 2 = 1 ELSE IF m = 2 THEN col \div 2 = 1 ELSE col # 0
(* the nodes of an actor that take part in checks of mode m *)
ActNodes(h, a, m) == { <<"n", h.rob, h.act[a].nd[j].n>> : j \in { j \in 1..Len(h.act[a].nd) : Bit(h.act[a].nd[j].col, m) } }
StatNodes(h) == { <<"n", h.rob, h.stat[k]>> : k \in 1..Len(h.stat) }
OtherActors(h, a) == { b \in 1..Len(h.act) : h.act[b].nm # h.act[a].nm }

HitsObj(R, h, a, O)   == { <<x, o, Touch(R, x, o)>> : x \in ActNodes(h, a, 3), o \in O }
HitsActor(R, h, a, g, b) == { <<x, y, Touch(R, x, y)>> : x \in ActNodes(h, a, 1), y \in ActNodes(g, b, 3) }
HitsStat(R, h, a, g) == { <<x, y, Touch(R, x, y)>> : x \in ActNodes(h, a, 2), y \in StatNodes(g) }
Hits(R, h, a, O) == HitsObj(R, h, a, O) \cup UNION { HitsActor(R, h, a, h, b) : b \in OtherActors(h, a) } \cup HitsStat(R, h, a, h)
V3(S) == Sum3({ t[3] : t \in S })
Of(S, v) == { <<t[1], t[2]>> : t \in { t \in S : t[3] = v } }

----------------------------------------------------------------------------
(* one attempt to move node j of actor a; s: step.                             *)
(* w: [R, con (contacts), amb (a verdict could not be told), mv (moved), free] *)
Target(R, h, a, j, s) == R[h.rob].q[h.act[a].nd[j].n] + s * h.act[a].nd[j].dir
Room(R, h, a, j, s) == InLimits(R[h.rob], h.act[a].nd[j].n, Target(R, h, a, j, s))
Moved(R, h, a, j, s) == [R EXCEPT ![h.rob] = SetQ(@, h.act[a].nd[j].n, Target(R, h, a, j, s))]
Attempt(w, h, a, j, s, O) ==
  IF ~Room(w.R, h, a, j, s) THEN w
  ELSE LET R2 == TLCEval(Moved(w.R, h, a, j, s))
           H  == TLCEval(Hits(R2, h, a, O))
           v  == V3(H)
       IN IF v = "no" THEN [w EXCEPT !.R = R2, !.mv = TRUE]
          ELSE IF v = "either" THEN [w EXCEPT !.amb = TRUE, !.R = R2]
          ELSE [w EXCEPT !.con = @ \cup { <<h.act[a].nm, c[1], c[2]>> : c \in Of({ t \in H : t[2][1] = "o" }, "yes") },
                         !.amb = @ \/ Of({ t \in H : t[2][1] = "o" }, "either") # {},
                         !.R[h.rob] = SetQ(R2[h.rob], h.act[a].nd[j].n, w.R[h.rob].q[h.act[a].nd[j].n])]
RECURSIVE Attempts(_, _, _, _, _, _)
Attempts(w, h, a, j, s, O) == IF j > Len(h.act[a].nd) THEN w ELSE Attempts(TLCEval(Attempt(w, h, a, j, s, O)), h, a, j+1, s, O)
(* all nodes of one actor; the result says whether any of them moved *)
Advance(R, h, a, s, O, con) == Attempts([R |-> R, con |-> con, amb |-> FALSE, mv |-> FALSE], h, a, 1, s, O)

RECURSIVE Round(_, _, _, _, _, _)
Round(w, h, a, s, O, done) ==     \* done: actors that have stopped
  IF a > Len(h.act) THEN [w |-> w, done |-> done]
  ELSE IF a \in done THEN Round(w, h, a+1, s, O, done)
  ELSE LET x == Advance(w.R, h, a, s, O, w.con) IN
       Round([R |-> x.R, con |-> x.con, amb |-> w.amb \/ x.amb, mv |-> w.mv \/ x.mv], h, a+1, s, O, IF x.mv THEN done ELSE done \cup {a})
(* the actors move in turns; when all have stopped and any has moved since the *)
(* last time they all started, they all try again                              *)
RECURSIVE CloseFrom(_, _, _, _, _, _)
CloseFrom(w, h, s, O, done, fuel) ==
  IF w.amb \/ fuel = 0 THEN [w EXCEPT !.amb = TRUE]
  ELSE IF done = 1..Len(h.act) THEN
         IF w.mv THEN CloseFrom([w EXCEPT !.con = {}, !.mv = FALSE], h, s, O, {}, fuel) ELSE w
  ELSE LET x == TLCEval(Round(w, h, 1, s, O, done)) IN CloseFrom(x.w, h, s, O, x.done, fuel - 1)
Close(id, s, O) == CloseFrom([R |-> rob, con |-> {}, amb |-> FALSE, mv |-> FALSE], hand[id], s, O, {}, 90)

(* without looking: true when nothing moved *)
RECURSIVE Blind(_, _, _, _, _)
Blind(w, h, a, j, s) ==
  IF j > Len(h.act[a].nd) THEN w
  ELSE Blind(IF Room(w.R, h, a, j, s) THEN [R |-> TLCEval(Moved(w.R, h, a, j, s)), mv |-> TRUE] ELSE w, h, a, j+1, s)
Push(R, h, a, s) == Blind([R |-> R, mv |-> FALSE], h, a, 1, s)

----------------------------------------------------------------------------
(* what a closed hand owes to its user, for any order of movements             *)
ClosedOK(id, R0, R1, s, O, con) ==
  LET h == hand[id]
      moved == UNION { { h.act[a].nd[j].n : j \in 1..Len(h.act[a].nd) } : a \in 1..Len(h.act) }
      driven == UNION { DOMAIN Prop(R0[h.rob], n) : n \in moved }
  IN /\ \A x \in DOMAIN R0 \ {h.rob} : R1[x] = R0[x]
     /\ R1[h.rob].pose = R0[h.rob].pose
     /\ \A n \in Nodes(R0[h.rob]) \ (moved \cup driven) : R1[h.rob].q[n] = R0[h.rob].q[n]
     (* in the closing direction only, and never over a limit *)
     /\ \A a \in 1..Len(h.act) : \A j \in 1..Len(h.act[a].nd) :
          LET n == h.act[a].nd[j].n  q0 == R0[h.rob].q[n]  q1 == R1[h.rob].q[n] IN
          q1 # q0 => (q1 - q0) * s * h.act[a].nd[j].dir > 0 /\ InLimits(R1[h.rob], n, q1)
     (* nobody can go on *)
     /\ \A a \in 1..Len(h.act) : \A j \in 1..Len(h.act[a].nd) :
          Room(R1, h, a, j, s) => V3(Hits(Moved(R1, h, a, j, s), h, a, O)) # "no"
     (* nothing is penetrated that was not before *)
     /\ (\A a \in 1..Len(h.act) : V3(Hits(R0, h, a, O)) = "no") => \A a \in 1..Len(h.act) : V3(Hits(R1, h, a, O)) = "no"
     (* the contacts are the objects in the way of those that stopped *)
     /\ con = UNION { UNION { { <<h.act[a].nm, c[1], c[2]>> : c \in Of(HitsObj(Moved(R1, h, a, j, s), h, a, O), "yes") }
                              : j \in { j \in 1..Len(h.act[a].nd) : Room(R1, h, a, j, s) } } : a \in 1..Len(h.act) }
=============================================================================
