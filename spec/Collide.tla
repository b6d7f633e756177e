------------------------------- MODULE Collide -------------------------------
(* Collision and distance queries between scene objects, robots, sets and the  *)
(* collision manager (VirtualRobot/CollisionDetection), on top of Forest.tla:  *)
(* the collision model of an element is where the element was last updated.    *)
(*                                                                             *)
(* shp : element -> sequence of boxes (elements without a model are missing)   *)
(* sets: set -> sequence of elements                                           *)
(* mgr : manager -> [models : Seq(ref), pairs : Set(<<ref, ref>>), k]          *)
(* A ref names the set a manager looks at: <<"s", set>> or <<"o", element, k>> *)
(* for a single element (wrapped by the manager, each time anew).              *)
EXTENDS Forest, Boxes

VARIABLES shp, sets, mgr
cvars == <<el, shp, sets, mgr>>

C0 == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

----------------------------------------------------------------------------
(* geometry of what exists *)
Placed(x) == { Place(el[x].cp, shp[x][k]) : k \in 1..Len(shp[x]) }
RobotModels(r) == { x \in DOMAIN shp : x \in Ids /\ el[x].k = "node" /\ x \in Below(el, r) /\ el[x].rob = r }
(* the models an operand consists of *)
Members(k, x) == CASE k \in {"m", "o"} -> {x}
                   [] k = "r" -> RobotModels(x)
                   [] k \in {"s", "v"} -> { y \in { sets[x][j] : j \in 1..Len(sets[x]) } : y \in DOMAIN shp }
Models(S) == UNION { Placed(x) : x \in S }
Known(S) == \A x \in S : el[x].cp # Unknown
Verdict(S, T) == IF ~Known(S \cup T) THEN "either"
                 ELSE Sum3({ Meet(b, d) : b \in Models(S), d \in Models(T) })

(* every corner of a model moves along its normal by 26 k: a box grows by      *)
(* 26 k / sqrt 3 = 15 k on each side, counted from the original model          *)
Inflate(S, k) == shp' = [x \in DOMAIN shp |-> IF x \in S THEN [j \in 1..Len(shp[x]) |-> [shp[x][j] EXCEPT !.h = << shp[x][j].h0[1]+15*k, shp[x][j].h0[2]+15*k, shp[x][j].h0[3]+15*k>>]] ELSE shp[x]]

----------------------------------------------------------------------------
(* sets *)
SetNew(s) == sets' = Put(sets, s, <<>>)
SetHas(s, x) == \E j \in 1..Len(sets[s]) : sets[s][j] = x
SetAdd(s, x) == sets' = IF SetHas(s, x) THEN sets ELSE [sets EXCEPT ![s] = Append(@, x)]
SetRem(s, x) == sets' = [sets EXCEPT ![s] = SelectSeq(@, LAMBDA y : y # x)]

----------------------------------------------------------------------------
(* managers *)
M0 == [models |-> <<>>, pairs |-> {}, k |-> 0]
Content(r) == IF r[1] = "o" THEN <<r[2]>> ELSE sets[r[2]]
Single(r) == Len(Content(r)) = 1
SameOne(r, q) == r = q \/ (Single(r) /\ Single(q) /\ Content(r) = Content(q))
Listed(m, r) == \E j \in 1..Len(m.models) : SameOne(m.models[j], r)
List(m, r) == IF Listed(m, r) THEN m ELSE [m EXCEPT !.models = Append(@, r)]
(* a new model is checked against all models that are not itself *)
AddModel(m, r) == List([m EXCEPT !.pairs = @ \cup { <<m.models[j], r>> : j \in { j \in 1..Len(m.models) : ~SameOne(m.models[j], r) } }], r)
AddPair(m, r, q) == LET n == List(List(m, r), q) IN [n EXCEPT !.pairs = @ \cup {<<r, q>>}]
Ref(m, k, x) == IF k = "o" THEN <<"o", x, m.k>> ELSE <<"s", x>>
MAdd(id, k, x) == LET m == mgr[id] IN mgr' = [mgr EXCEPT ![id] = [AddModel(m, Ref(m, k, x)) EXCEPT !.k = m.k + 1]]
MPair(id, k, x, l, y) ==
  LET m == mgr[id]  n == [m EXCEPT !.k = m.k + 1]
  IN mgr' = [mgr EXCEPT ![id] = [AddPair(m, Ref(m, k, x), Ref(n, l, y)) EXCEPT !.k = m.k + 2]]
RefModels(r) == { x \in { Content(r)[j] : j \in 1..Len(Content(r)) } : x \in DOMAIN shp }
PairVerdict(r, q) == Verdict(RefModels(r), RefModels(q))
MVerdict(m) == Sum3({ PairVerdict(p[1], p[2]) : p \in m.pairs })
(* a set against everything that is listed, but not against itself *)
Others(m, s) == { m.models[j] : j \in { j \in 1..Len(m.models) : m.models[j] # <<"s", s>> } }
MSetVerdict(m, s) == Sum3({ PairVerdict(r, <<"s", s>>) : r \in Others(m, s) })

----------------------------------------------------------------------------
(* distances: d10 is 10 times the observed distance, p and q the nearest       *)
(* points times 25 (<<>> when not asked for); P a set of pairs of sets         *)
Boxes2(P) == UNION { { <<b, d>> : b \in Models(p[1]), d \in Models(p[2]) } : p \in P }
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LowerOK(bd, d10) ==   \* no pair of boxes is nearer than reported, as far as separating axes tell
  d10 <= 1 \/ Meet(bd[1], bd[2]) # "yes"
PointsOK(B, d10, p, q) ==
  LET n == Minus(q, p) IN
  /\ 4 * Dot(n, n) <= 25 * (d10 + 2) * (d10 + 2) /\ (d10 <= 2 \/ 4 * Dot(n, n) >= 25 * (d10 - 2) * (d10 - 2))
  /\ \E bd \in B : /\ In25(bd[1], p) /\ In25(bd[2], q)
                   /\ (Meet(bd[1], bd[2]) = "no" /\ Inside(bd[1], bd[2]) = -1 /\ Inside(bd[2], bd[1]) = -1) => Nearest(bd[1], bd[2], p, q)
DistOK(P, d10, w, p, q) ==
  LET B == Boxes2(P)
      al == { bd \in B : Aligned(bd[1]) /\ Aligned(bd[2]) }
  IN \/ \E pr \in P : ~Known(pr[1] \cup pr[2])
     \/ ~(\A bd \in B : Small(bd[1]) /\ Small(bd[2]))
     \/ /\ d10 \in 0..20000
        /\ al = B => DistIs(d10, MinOf({ Dist2(bd[1], bd[2]) : bd \in B }))
        /\ \A bd \in al : (d10 <= 1 \/ (d10-1)*(d10-1) <= 100*Dist2(bd[1], bd[2]))
        /\ \A bd \in B : LowerOK(bd, d10)
        /\ (w /\ d10 > 2) => PointsOK(B, d10, p, q)   \* no nearest points of surfaces that meet
=============================================================================
