------------------------------- MODULE Paths --------------------------------
(* Joint trajectories and configuration-space paths (VirtualRobot::Trajectory, *)
(* Saba::CSpacePath): sequences of configurations and what is asked about them. *)
(* pa : name -> [k : "traj" | "cspace", s, p : Seq(configuration)]             *)
EXTENDS CSpaces

VARIABLE pa

PutP(n, v) == pa' = [x \in DOMAIN pa \cup {n} |-> IF x = n THEN v ELSE pa[x]]
SetPts(n, q) == PutP(n, [pa[n] EXCEPT !.p = q])
PutIn(p, k, l) == IF k > Len(p) THEN p ELSE SubSeq(p, 1, k) \o l \o SubSeq(p, k+1, Len(p))
Reversed(p) == [k \in 1..Len(p) |-> p[Len(p) + 1 - k]]
CutOut(p, k, l) == IF k >= Len(p) \/ l >= Len(p) \/ k > l THEN p ELSE SubSeq(p, 1, k) \o SubSeq(p, l+2, Len(p))

New_(n, k, s) == PutP(n, [k |-> k, s |-> s, p |-> <<>>])
Add(n, q) == SetPts(n, Append(pa[n].p, q))
(* positions count from 0; an insertion behind the end is refused *)
Insert(n, k, l) == SetPts(n, PutIn(pa[n].p, k, l))
Erase(n, k) == SetPts(n, CutOut(pa[n].p, k, k))
Remove_(n, k, l) == SetPts(n, CutOut(pa[n].p, k, l))
Removed(n, k, l) == Len(pa[n].p) - Len(CutOut(pa[n].p, k, l))
Reverse_(n) == SetPts(n, Reversed(pa[n].p))
Reset_(n) == SetPts(n, <<>>)
Replace_(n, k, q) == SetPts(n, IF k < Len(pa[n].p) THEN [pa[n].p EXCEPT ![k+1] = q] ELSE pa[n].p)
Clone_(n, m) == PutP(m, pa[n])
SubOK(n, k, l) == k < Len(pa[n].p) /\ l < Len(pa[n].p)
Sub(n, k, l, m) == IF SubOK(n, k, l) THEN PutP(m, [k |-> "traj", s |-> "", p |-> SubSeq(pa[n].p, k+1, l+1)]) ELSE UNCHANGED pa

----------------------------------------------------------------------------
(* lengths in hundredths; a trajectory adds differences, a c-space path uses   *)
(* the metric of its space                                                     *)
EuclD2(a, b) == SumTo([d \in Dims |-> Sq1(d, b[d] - a[d], 1)], Len(env.ax))
SegLen(n, k, W) == LET P == pa[n] IN IF P.k = "traj" THEN Root(EuclD2(P.p[k], P.p[k+1])) ELSE Dist(P.s, P.p[k], P.p[k+1], W)
RECURSIVE LenTo(_, _, _, _)
LenTo(n, j, k, W) == IF k <= j THEN 0 ELSE LenTo(n, j, k-1, W) + SegLen(n, k-1, W)     \* from point j to k (1-based)
LenOf(n, W) == IF Len(pa[n].p) < 2 THEN 0 ELSE LenTo(n, 1, Len(pa[n].p), W)
LenSlack(n, x) == 4 * Len(pa[n].p) + 3 + x \div 500
(* the position at share t of 1000 *)
InterpOK(n, t, c, idx) ==
  LET P == pa[n]  N == Len(P.p)  C == [k \in 1..N |-> LenTo(n, 1, k, TRUE)]
      T == (C[N] * t) \div 1000
      tol == LenSlack(n, C[N]) + 30 * (IF P.k = "traj" THEN 1 ELSE MaxW(P.s))
      D(d, a, b) == IF P.k = "traj" THEN b - a ELSE Delta(d, a, b)
  IN IF t = 0 THEN c = P.p[1] /\ idx = 0
     ELSE IF t = 1000 THEN c = P.p[N] /\ idx = N - 1
     ELSE IF N = 1 THEN c = P.p[1] /\ idx = 0
     ELSE /\ idx \in 0..N-2
          /\ C[idx+1] <= T + tol /\ T <= C[idx+2] + tol
          /\ LET a == P.p[idx+1]  b == P.p[idx+2]
             IN IF P.k = "cspace" /\ Opposite(a, b) THEN TRUE
                ELSE /\ OnLineD([d \in Dims |-> D(d, a[d], b[d])], [d \in Dims |-> D(d, a[d], c[d])], 2)
                     /\ LET r == IF P.k = "traj" THEN Root(EuclD2(a, c)) ELSE Dist(P.s, a, c, TRUE) IN AbsI(r - (T - C[idx+1])) <= tol
TimeOf(n, k) == LET L == LenOf(n, TRUE)  m == MinI(k, Len(pa[n].p) - 1) IN ((LenTo(n, 1, m+1, TRUE) \div 10) * 1000) \div (L \div 10)
Checked(n) == LET P == pa[n] IN All3({ Segment(P.s, P.p[k+1], P.p[k]) : k \in 1..Len(P.p)-1 })
=============================================================================
