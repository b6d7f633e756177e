------------------------------ MODULE MC_Hands ------------------------------
(* Bounded exploration of Hands.tla: a hand with three fingers and two objects *)
(* closes, opens and is moved; every closing keeps the promises of ClosedOK.   *)
EXTENDS HandsTrace
CONSTANTS MaxLevel, Sim
VARIABLES lv, hist, good
mvars == <<rob, hand, shp, obj, oset, lv, hist, good, i>>
I9 == <<25,0,0, 0,25,0, 0,0,25>>
At(x, y, z) == <<1,0,0, 0,1,0, 0,0,1, x, y, z>>
Bx(h) == h \o I9 \o <<0,0,0>>
Nd(par, typ, ax, loc, lo, hi) == [par |-> par, typ |-> typ, ax |-> ax, lo |-> lo, hi |-> hi, free |-> FALSE, enf |-> TRUE, off |-> 0, loc |-> loc]
Z3 == <<0,0,0>>
St == [nodes |-> [root |-> Nd("", "fixed", Z3, IdPose, 0, 0), palm |-> Nd("root", "fixed", Z3, At(0,0,0), 0, 0),
        l0 |-> Nd("palm", "pris", <<1,0,0>>, At(-96,0,32), -32, 160), l1 |-> Nd("l0", "rev", <<0,1,0>>, At(0,0,48), -10, 100),
        r0 |-> Nd("palm", "pris", <<-1,0,0>>, At(96,0,32), 0, 160), s0 |-> Nd("palm", "pris", <<0,0,1>>, At(0,0,-64), -16, 80)]]
Shp0 == [x \in {"H/palm", "H/l0", "H/l1", "H/r0", "H/s0", "a", "b"} |-> BoxesOf(
          CASE x = "H/palm" -> Bx(<<33,19,5>>) [] x = "H/l0" -> Bx(<<3,5,7>>) [] x = "H/l1" -> Bx(<<5,7,35>>) [] x = "H/r0" -> Bx(<<7,19,33>>)
            [] x = "H/s0" -> Bx(<<5,5,5>>) [] x = "a" -> Bx(<<17,17,23>>) [] OTHER -> Bx(<<5,23,17>>))]
Hand0 == [rob |-> "H", act |-> << [nm |-> "left", nd |-> << [n |-> "l0", dir |-> 16, col |-> 3], [n |-> "l1", dir |-> 90, col |-> 3] >>],
                                  [nm |-> "right", nd |-> << [n |-> "r0", dir |-> 16, col |-> 3] >>],
                                  [nm |-> "stem", nd |-> << [n |-> "s0", dir |-> 16, col |-> 1] >>] >>,
          stat |-> <<"palm">>, base |-> "palm", tcp |-> "palm", gcp |-> "palm", pre |-> [wide |-> [l0 |-> -32, r0 |-> 0, l1 |-> 0]]]
Places == { At(0,0,32), At(-40,8,40), At(48,0,64), At(0,0,400) }
File == "hand.xml"
Empty(f) == IF DOMAIN f = {} THEN [_ |-> 0] ELSE f
MInit == /\ i = 1 /\ lv = 0 /\ good = TRUE
         /\ rob = [H |-> NewRobot(St, E0, [n \in DOMAIN St.nodes |-> 0], IdPose)]
         /\ hand = ("H/hand" :> Hand0) /\ shp = Shp0 /\ obj = [a |-> At(0,0,400), b |-> At(0,0,400)]
         /\ oset = [S |-> <<"a", "b">>]
         /\ hist = <<>>
Go(e) == lv' = lv + 1 /\ hist' = (IF Sim THEN Append(hist, e) ELSE hist) /\ i' = i
MClose(e, s) ==
  LET w == Close("H/hand", s, About(e)) IN
  /\ ~w.amb /\ rob' = w.R /\ good' = ClosedOK("H/hand", rob, w.R, s, About(e), w.con)
  /\ Only_rob /\ Go(e)
Ops == {<<"-", "-">>, <<"o", "a">>, <<"s", "S">>}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Ev(op) == [op |-> op, r |-> "H", e |-> "hand"]
MNext ==
  /\ lv < MaxLevel
  /\ \/ \E o \in Pick(Ops), st \in Pick({1, 2}) : MClose(Ev("close") @@ [k |-> o[1], o |-> o[2], s |-> st], st)
     \/ \E o \in Pick(Ops) : MClose(Ev("open") @@ [k |-> o[1], o |-> o[2], s |-> 1], -1)
     \/ \E x \in Pick({"a", "b"}), p \in Pick(Places) : obj[x] # p /\ obj' = [obj EXCEPT ![x] = p] /\ UNCHANGED <<rob, hand, shp, oset, good>> /\ Go([op |-> "move", x |-> x, p |-> p])
     \/ \E n \in Pick({"l0", "r0", "l1"}), v \in Pick({0, 32, 90}) : (n = "l1") = (v = 90) /\ SetJoint("H", n, v) /\ Only_rob /\ UNCHANGED good /\ Go([op |-> "q", r |-> "H", n |-> n, v |-> v])
     \/ SetMany("H", Hand0.pre.wide) /\ Only_rob /\ UNCHANGED good /\ Go(Ev("pre") @@ [nm |-> "wide"])
     \/ \E a \in {"left", "right"} : LET w == Push(rob, hand["H/hand"], ActIdx(hand["H/hand"], a), 1) IN rob' = w.R /\ Only_rob /\ UNCHANGED good /\ Go(Ev("mv") @@ [a |-> a, s |-> 1])
Good == good
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
View == <<rob, obj, good>>
=============================================================================
