------------------------------ MODULE MC_Paths ------------------------------
(* Small instance of paths: a c-space path and a trajectory of one dimension.  *)
EXTENDS Paths, TLC, Json, SequencesExt

CONSTANT MaxLevel, Sim, MaxPts
VARIABLE hist
mvars == <<env, sp, pa, hist>>
Qs == {<<0>>, <<40>>, <<-70>>}
N == {"p", "q"}
H(r) == hist' = IF Sim THEN Append(hist, r) ELSE Append(hist, 0)
MInit == /\ env = [ax |-> <<1>>, hb |-> <<30, 30, 300>>, p0 |-> <<0, 0, 0>>, lim |-> <<<<-2000, 2000>>>>, obs |-> <<>>]
         /\ sp = [s \in {"S"} |-> [kind |-> "sampled", lo |-> <<-2000>>, hi |-> <<2000>>, w |-> <<2>>, use |-> TRUE, samp |-> 20, dcd |-> 20, cap |-> 4, used |-> {}, con |-> <<>>]]
         /\ pa = [n \in N |-> [k |-> IF n = "p" THEN "cspace" ELSE "traj", s |-> IF n = "p" THEN "S" ELSE "", p |-> <<>>]]
         /\ hist = <<>>
Pos == 0..MaxPts
Edit ==
  \/ \E n \in N, q \in Qs : Add(n, q) /\ H([op |-> "padd", p |-> n, c |-> q])
  \/ \E n \in N, k \in Pos, q \in Qs : Insert(n, k, <<q>>) /\ H([op |-> "pins", p |-> n, k |-> k, c |-> q])
  \/ \E n, m \in N, k \in Pos : Insert(n, k, pa[m].p) /\ H([op |-> "pinst", p |-> n, k |-> k, q |-> m])
  \/ \E n \in N, k \in Pos : Erase(n, k) /\ H([op |-> "perase", p |-> n, k |-> k])
  \/ \E n \in N, k, l \in Pos : Remove_(n, k, l) /\ H([op |-> "prem", p |-> n, k |-> k, l |-> l])
  \/ \E n \in N : Reverse_(n) /\ H([op |-> "prev", p |-> n])
  \/ \E n \in N : Reset_(n) /\ (~Sim \/ RandomElement(1..5) = 1) /\ H([op |-> "preset", p |-> n])
  \/ \E n \in N, k \in Pos, q \in Qs : Replace_(n, k, q) /\ H([op |-> "pset", p |-> n, k |-> k, c |-> q])
  \/ \E n \in N, m \in {"c"} : Sim /\ Clone_(n, m) /\ H([op |-> "pclone", p |-> n, q |-> m])
  \/ \E n \in N, k, l \in Pos : Sim /\ Sub(n, k, l, "d") /\ H([op |-> "psub", p |-> n, k |-> k, l |-> l, q |-> "d"])
Ask == Sim /\ UNCHANGED pa /\ \E n \in DOMAIN pa :
  \/ H([op |-> "pcont", p |-> n])
  \/ H([op |-> "plen", p |-> n])
  \/ \E k, l \in Pos : H([op |-> "pgets", p |-> n, k |-> k, l |-> l])
  \/ Len(pa[n].p) > 0 /\ \E t \in {0, 10, 200, 500, 990, 1000} : H([op |-> "pint", p |-> n, t |-> 10 * t])
MNext == (Edit \/ Ask) /\ UNCHANGED <<env, sp>>
Bound == Len(hist) <= MaxLevel /\ \A n \in N : Len(pa[n].p) <= MaxPts
View == pa
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
(* length does not depend on the direction, and is additive *)
Lengths == \A n \in N : LET p == pa[n].p IN
   /\ Len(p) > 0 => \A k \in 1..Len(p) : LenTo(n, 1, k, TRUE) + LenTo(n, k, Len(p), TRUE) = LenOf(n, TRUE)
   /\ LenOf(n, TRUE) >= 0 /\ (Len(p) > 1 => LenOf(n, TRUE) >= LET m == pa[n] IN IF m.k = "traj" THEN Root(EuclD2(p[1], p[Len(p)])) - Len(p) ELSE Dist("S", p[1], p[Len(p)], TRUE) - Len(p))
(* every position has an acceptable interpolation on its segment, and the ends are exact *)
Exact == \A n \in N : LET p == pa[n].p IN Len(p) > 0 => /\ InterpOK(n, 0, p[1], 0) /\ InterpOK(n, 1000, p[Len(p)], Len(p) - 1)
                                                        /\ \A q \in Qs : q # p[1] => ~InterpOK(n, 0, q, 0)
(* an edit of one path leaves the other one alone; an edit addresses positions *)
Local == [][\E n \in N : \A m \in N \ {n} : pa'[m] = pa[m]]_mvars
RoundTrip == \A n \in N : LET p == pa[n].p IN
   /\ Reversed(Reversed(p)) = p
   /\ \A k \in 0..Len(p) : CutOut(PutIn(p, k, << <<0>> >>), k, k) = p
   /\ \A k \in 0..Len(p) - 1 : PutIn(CutOut(p, k, k), k, <<p[k+1]>>) = p
   /\ \A k \in 0..Len(p)+2 : Len(PutIn(p, k, p)) \in {Len(p), 2 * Len(p)}
=============================================================================
