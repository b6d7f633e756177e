---------------------------- MODULE MC_GraspPlan ----------------------------
(* Bounded exploration of the planner's books: every hypothesis gets one of    *)
(* the verdicts the situation allows; the counters add up, every accepted      *)
(* hypothesis is one grasp with a name of its own, and rejected ones leave     *)
(* no trace in the grasp set.                                                  *)
EXTENDS GraspPlan, Json
CONSTANTS MaxLevel, Sim, MaxTry
VARIABLES lv, hist, names, acc, tries
mvars == <<gvars, lv, hist, names, acc, tries>>
At(x, y, z) == <<1,0,0, 0,1,0, 0,0,1, x, y, z>>
Near_ == At(40, 0, 0)
Far == At(4000, 0, 0)
MInit ==
  /\ ob = [o |-> At(0,0,0), b0 |-> Far] /\ shp = [o |-> << <<12,12,12, 0,0,0>> >>, b0 |-> << <<30,30,30, 0,0,0>> >>]
  /\ hnd = None /\ orig = None /\ gen = [o |-> "o", pre |-> "-", ret |-> 0, area |-> FALSE] /\ eef = Fine(At(0,0,300)) /\ cq = <<>>
  /\ par = [q |-> 0, fc |-> FALSE] /\ obst = {"b0"} /\ cnt = Zero /\ size = 0
  /\ lv = 0 /\ hist = <<>> /\ names = {} /\ acc = 0 /\ tries = 0
Go(e) == lv' = lv + 1 /\ hist' = (IF Sim THEN Append(hist, e) ELSE hist)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
(* verdicts that can occur: collisions only with obstacles near by, weak grasps only with demands *)
Verdicts(o) == {"ok", "con"} \cup (IF o /\ ob.b0 = Near_ THEN {"col"} ELSE {}) \cup (IF par.q > 0 \/ par.fc THEN {"fc"} ELSE {})
Take(v) == IF v = "ok" THEN names' = names \cup {GName(size + 1)} ELSE names' = names
MPg(o) == \E v \in Verdicts(o) :
  /\ cnt.gen < MaxTry /\ cnt' = Step1(cnt, v) /\ UNCHANGED <<size, names, acc, tries>>
  /\ UNCHANGED <<ob, shp, hnd, orig, gen, par, obst, cq>> /\ eef' = eef /\ Go([op |-> "pg", o |-> o])
(* a run: k hypotheses of which a are accepted; without a time limit exactly n are *)
MPlan(n, t, o) == \E a \in 0..n, r \in 0..2 :
  /\ cnt.gen + n + 2 < MaxTry
  /\ (t = 0 => a = n) /\ (n = 0 => r = 0)
  /\ LET bad == CHOOSE v \in Verdicts(o) \ {"ok"} : TRUE IN
     cnt' = [cnt EXCEPT !.gen = @ + a + r, !.ok = @ + a, ![bad] = @ + r]
  /\ size' = size + a /\ acc' = acc + a /\ names' = names \cup { GName(size + k) : k \in 1..a } /\ tries' = tries + 1
  /\ UNCHANGED <<ob, shp, hnd, orig, gen, par, obst, cq, eef>> /\ Go([op |-> "plan", n |-> n, t |-> t, o |-> o])
Rest == UNCHANGED <<shp, hnd, orig, gen, obst, size, cq, names, acc, tries>>
MNext ==
  /\ lv < MaxLevel
  /\ \/ \E o \in Pick(BOOLEAN) : MPg(o)
     \/ \E n \in Pick(0..2), o \in Pick(BOOLEAN) : MPlan(n, 60, o)
     \/ par = [q |-> 0, fc |-> FALSE] /\ \E n \in Pick({1, 2}) : MPlan(n, 0, FALSE)
     \/ \E q \in Pick({0, 50, 9000}), f \in Pick(BOOLEAN) : par' = [q |-> q, fc |-> f] /\ UNCHANGED <<ob, cnt, eef>> /\ Rest /\ Go([op |-> "par", q |-> q, fc |-> f])
     \/ cnt' = Zero /\ cnt # Zero /\ UNCHANGED <<ob, par, eef>> /\ Rest /\ Go([op |-> "clr"])
     \/ \E p \in Pick({Near_, Far}) : ob.b0 # p /\ ob' = [ob EXCEPT !.b0 = p] /\ UNCHANGED <<cnt, par, eef>> /\ Rest /\ Go([op |-> "move", x |-> "b0", p |-> p])
     \/ \E p \in Pick({At(0,0,0), << 0,-1,0, 1,0,0, 0,0,1, 100, -50, 20 >>}) : ob.o # p /\ ob' = [ob EXCEPT !.o = p] /\ UNCHANGED <<cnt, par, eef>> /\ Rest /\ Go([op |-> "move", x |-> "o", p |-> p])
     \/ \E v \in Pick({<<10,0,0>>, <<0,-40,30>>}) : eef' = Shift(eef, v) /\ UNCHANGED <<ob, cnt, par>> /\ Rest /\ Go([op |-> "oupd", v |-> v])
     \/ UNCHANGED <<ob, cnt, par, eef>> /\ Rest /\ Go([op |-> "app"])
Good == Books(cnt) /\ size = acc /\ Cardinality(names) = size /\ cnt.gen >= 0
(* the hand can be moved there and back *)
Back == Shift(Shift(eef, <<5, 6, 7>>), <<-5, -6, -7>>) = eef /\ Act(Inv(ob.o), Act(ob.o, eef)) = eef
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
View == <<ob, par, cnt, size, IF eef = Fine(At(0,0,300)) THEN 0 ELSE 1>>
=============================================================================
