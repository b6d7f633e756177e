------------------------------ MODULE MC_Collide ------------------------------
(* Bounded exploration of Collide.tla: three boxes (one of them tilted), two   *)
(* sets and a manager; behaviours for the real code.                           *)
EXTENDS CollideTrace
CONSTANTS MaxLevel, Sim, Geo  \* Geo: only motion is explored (otherwise only sets and managers)
VARIABLES hist, mix          \* mix: pairs were added by hand or sets changed after they were added
mvars == <<el, shp, sets, mgr, hist, mix, i>>
I9 == <<25,0,0, 0,25,0, 0,0,25>>
Poses == { <<1,0,0, 0,1,0, 0,0,1, 0,0,0>>, <<0,-1,0, 1,0,0, 0,0,1, 40,0,0>>, <<1,0,0, 0,0,-1, 0,1,0, 0,50,-50>>, <<1,0,0, 0,1,0, 0,0,1, 15,10,5>> }
More == Poses \cup { <<1,0,0, 0,-1,0, 0,0,-1, -35,0,20>>, <<0,0,1, 0,1,0, -1,0,0, 0,-60,0>>, <<1,0,0, 0,1,0, 0,0,1, 3,2,1>> }
Where == IF Sim THEN More ELSE Poses
Shape == [A |-> <<10,20,30>> \o I9 \o <<0,0,0>>, B |-> <<25,5,9>> \o I9 \o <<5,0,0>>,
          C |-> <<12,12,12>> \o <<20,-15,0, 15,20,0, 0,0,25>> \o <<0,0,0>> \o <<8,30,4>> \o I9 \o <<0,0,20>>]
Objs == DOMAIN Shape
Mk(x) == [op |-> "newc", x |-> x, nm |-> x, p |-> IdPose, m |-> Shape[x]]
Made == << [op |-> "reset"], Mk("A"), Mk("B"), Mk("C"), [op |-> "cset", s |-> "S"], [op |-> "cset", s |-> "T"],
           [op |-> "csadd", s |-> "S", x |-> "A"], [op |-> "csadd", s |-> "T", x |-> "B"], [op |-> "csadd", s |-> "T", x |-> "C"], [op |-> "mnew", m |-> "M"] >>
MInit == /\ i = 1 /\ hist = Made /\ mix = FALSE
         /\ el = [x \in Objs |-> [k |-> "obj", rob |-> "", nm |-> x, par |-> "", ch |-> {}, gp |-> IdPose, vp |-> IdPose, cp |-> IdPose,
            uv |-> TRUE, uc |-> TRUE, held |-> TRUE, loc |-> IdPose, typ |-> "fixed", ax |-> <<0,0,0>>, q |-> 0]]
         /\ shp = [x \in Objs |-> BoxesOf(Shape[x])]
         /\ sets = [S |-> <<"A">>, T |-> <<"B", "C">>]
         /\ mgr = [M |-> M0]
Do(e, b) == Step(e) /\ hist' = Append(hist, e) /\ i' = i + 1 /\ mix' = (mix \/ b)
Ask(e) == Sim /\ Stay /\ hist' = Append(hist, e) /\ i' = i + 1 /\ UNCHANGED mix
Ops == {<<"s", "S">>, <<"s", "T">>} \cup {<<"o", x>> : x \in Objs}
Mops == IF Geo THEN {} ELSE Ops
MNext ==
  \/ \E x \in IF Geo \/ Sim THEN Objs ELSE {}, p \in IF Sim THEN {RandomElement(Where)} ELSE Where : Do([op |-> "move", x |-> x, p |-> p], FALSE)
  \/ \E o \in Mops : Do([op |-> "madd", m |-> "M", k |-> o[1], x |-> o[2]], FALSE)
  \/ \E o \in Mops, q \in Mops : (o[1] = q[1] \/ o[1] = "o") /\ Do([op |-> "mpair", m |-> "M", k |-> o[1], x |-> o[2], l |-> q[1], y |-> q[2]], TRUE)
  \/ \E s \in IF Geo THEN {} ELSE DOMAIN sets, x \in Objs : \/ Do([op |-> "csadd", s |-> s, x |-> x, res |-> ~SetHas(s, x)], TRUE)
                                        \/ Do([op |-> "csrem", s |-> s, x |-> x, res |-> SetHas(s, x)], TRUE)
  \/ \E x \in IF Sim THEN Objs ELSE {}, k \in 0..2 : Do([op |-> "cinfl", x |-> x, k |-> k], FALSE)
  \/ \E o \in Ops, q \in Ops : (o[1] = q[1] \/ o[1] = "o") /\
        \/ Ask([op |-> "cc", k |-> o[1], a |-> o[2], l |-> q[1], b |-> q[2]])
        \/ Ask([op |-> "cd", k |-> o[1], a |-> o[2], l |-> q[1], b |-> q[2], w |-> TRUE])
  \/ \E o \in Objs, q \in Objs : Ask([op |-> "cc", k |-> "m", a |-> o, l |-> "m", b |-> q])
  \/ \E o \in Objs, q \in DOMAIN sets : Ask([op |-> "cc", k |-> "v", a |-> q, l |-> "m", b |-> o])
  \/ \E s \in DOMAIN sets : \/ Ask([op |-> "mcols", m |-> "M", s |-> s])
                            \/ Ask([op |-> "mdists", m |-> "M", s |-> s, w |-> TRUE])
                            \/ Ask([op |-> "mdists", m |-> "M", s |-> s, w |-> FALSE])
                            \/ Ask([op |-> "mhas", m |-> "M", s |-> s])
  \/ Ask([op |-> "mcol", m |-> "M"]) \/ Ask([op |-> "mdist", m |-> "M", w |-> TRUE]) \/ Ask([op |-> "mdist", m |-> "M", w |-> FALSE])
View == <<el, sets, [k \in DOMAIN mgr |-> [models |-> mgr[k].models, pairs |-> mgr[k].pairs]], mix>>
Bound == TLCGet("level") < MaxLevel
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
----------------------------------------------------------------------------
Symmetric == \A x, y \in Objs : Verdict({x}, {y}) = Verdict({y}, {x})
(* the distance of the surfaces tells the same as the collision check *)
Agree == \A b, d \in Models(Objs) : (Aligned(b) /\ Aligned(d)) =>
            /\ Meet(b, d) = "yes" => Dist2(b, d) = 0
            /\ Meet(b, d) = "no" => Dist2(b, d) > 0
            /\ Dist2(b, d) = Dist2(d, b)
(* a set collides exactly if one of its members does *)
Union == \A s, t \in DOMAIN sets : Verdict(RefModels(<<"s", s>>), RefModels(<<"s", t>>)) =
            Sum3({ Verdict({x}, {y}) : x \in RefModels(<<"s", s>>), y \in RefModels(<<"s", t>>) })
(* everything that was added is checked against everything else that was added, *)
(* and against nothing else                                                     *)
Complete == ~mix => LET m == mgr["M"]  N == 1..Len(m.models)
                        As(p, j, k) == SameOne(p[1], m.models[j]) /\ SameOne(p[2], m.models[k])
                    IN /\ \A j, k \in N : j < k => \E p \in m.pairs : As(p, j, k) \/ As(p, k, j)
                       /\ \A p \in m.pairs : \E j, k \in N : j # k /\ As(p, j, k)
Once == \A j, k \in 1..Len(mgr["M"].models) : (~mix /\ j # k) => ~SameOne(mgr["M"].models[j], mgr["M"].models[k])
Monotone == [][\A p \in mgr["M"].pairs : p \in mgr'["M"].pairs]_mvars
=============================================================================
