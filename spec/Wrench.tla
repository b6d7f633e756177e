------------------------------- MODULE Wrench -------------------------------
(* Rating grasps: convex hulls, friction cones, wrenches and the measure built *)
(* from them.  Hulls of integer points are decided exactly: every facet keeps  *)
(* all points on its inner side and the facets close, so that they are the     *)
(* whole boundary of the hull.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  meas,    \* measure -> [o, mu, n, com, ows]: what it was made for
  con,     \* measure -> its contacts, a sequence of <<x,y,z, nx,ny,nz>>
  len,     \* object -> greatest extension
  memo     \* what was found for a set of contacts: <<object, mu, n, contacts>> -> [fc, mo, sure]
wvars == <<meas, con, len, memo>>

A_(x) == IF x < 0 THEN -x ELSE x
Sub3(a, b) == << a[1]-b[1], a[2]-b[2], a[3]-b[3] >>
Cross(a, b) == << a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1] >>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Det(a, b, c) == Dot3(a, Cross(b, c))
Zero3 == <<0,0,0>>

(* ------------------------------ hull of points ----------------------------- *)
Solid(P) ==      \* four of the points are not in one plane
  LET p0 == CHOOSE p \in P : TRUE
      p1 == { p \in P : p # p0 } IN
  p1 # {} /\ LET a == CHOOSE p \in p1 : TRUE  u == Sub3(a, p0)
                 p2 == { p \in P : Cross(u, Sub3(p, p0)) # Zero3 } IN
             p2 # {} /\ LET b == CHOOSE p \in p2 : TRUE IN \E p \in P : Det(u, Sub3(b, p0), Sub3(p, p0)) # 0
FNorm(f) == Cross(Sub3(f.v[2], f.v[1]), Sub3(f.v[3], f.v[1]))
(* side of the plane of f with all the points: 1, -1, 0 for a flat facet, 9 when there are points on both *)
Side(P, f) == LET N == FNorm(f)  S == { Dot3(N, Sub3(p, f.v[1])) : p \in P } IN
              IF N = Zero3 THEN 0 ELSE IF \A s \in S : s <= 0 THEN 1 ELSE IF \A s \in S : s >= 0 THEN -1 ELSE 9
MaxAbs(v) == LET a == A_(v[1])  b == A_(v[2])  c == A_(v[3]) IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Outward(P, f) ==   \* the normal given (1/10000) is that of the facet and shows away from the points
  LET N == FNorm(f)  s == Side(P, f)  X == Cross(f.n, N) IN
  s = 0 \/ (s # 9 /\ MaxAbs(X) <= 30 * MaxAbs(N) /\ s * Dot3(f.n, N) > 0 /\ A_(Dot3(f.n, f.n) - 100000000) <= 200000)
Edges(f) == { {f.v[1], f.v[2]}, {f.v[2], f.v[3]}, {f.v[1], f.v[3]} }
Closed(F) == \A k \in 1..Len(F) : \A e \in Edges(F[k]) : Cardinality({ m \in 1..Len(F) : e \in Edges(F[m]) }) = 2
Verts(F) == UNION { { F[k].v[1], F[k].v[2], F[k].v[3] } : k \in 1..Len(F) }
RECURSIVE Vol6(_, _)
Vol6(p, F) == IF F = <<>> THEN 0 ELSE A_(Det(Sub3(F[1].v[1], p), Sub3(F[1].v[2], p), Sub3(F[1].v[3], p))) + Vol6(p, Tail(F))
RECURSIVE SumV(_)
SumV(S) == IF S = {} THEN Zero3 ELSE LET v == CHOOSE v \in S : TRUE  r == SumV(S \ {v}) IN << v[1]+r[1], v[2]+r[2], v[3]+r[3] >>

(* ------------------------------ friction cones ----------------------------- *)
(* 10000 times cosine and sine of the angle whose tangent is mu/100 *)
CosT == 0 :> 10000 @@ 25 :> 9701 @@ 50 :> 8944 @@ 75 :> 8000 @@ 100 :> 7071 @@ 200 :> 4472
SinT == 0 :> 0 @@ 25 :> 2425 @@ 50 :> 4472 @@ 75 :> 6000 @@ 100 :> 7071 @@ 200 :> 8944
CosDeg == 0 :> 10000 @@ 30 :> 8660 @@ 45 :> 7071 @@ 60 :> 5000 @@ 90 :> 0 @@ 120 :> -5000 @@ 135 :> -7071 @@ 150 :> -8660 @@ 180 :> -10000
Turn(d) == LET a == d % 360 IN IF a > 180 THEN 360 - a ELSE a
Len3(v) == CHOOSE k \in 1..50 : k * k = Dot3(v, v)       \* normals of integer length

(* --------------------------------- wrenches -------------------------------- *)
(* all vectors of the six dimensions in 1/10000 *)
RECURSIVE Dot6_(_, _, _)
Dot6_(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot6_(a, b, k - 1)
(* values up to 12 and unit normals: products of two values of at most 40000 and 10000 *)
Dot6(a, b) == (a[1]*b[1]) \div 1000 + (a[2]*b[2]) \div 1000 + (a[3]*b[3]) \div 1000 + (a[4]*b[4]) \div 1000 + (a[5]*b[5]) \div 1000 + (a[6]*b[6]) \div 1000
Plane(f, w) == Dot6(f.n, w) \div 10 + f.o       \* 1/10000
Inside6(F, w) == \A k \in 1..Len(F) : Plane(F[k], w) <= 12
Ridges(f) == { { f.v[m] : m \in 1..6 \ {k} } : k \in 1..6 }
VSet(f) == { f.v[m] : m \in 1..6 }
Closed6(F) == LET S == [k \in 1..Len(F) |-> VSet(F[k])] IN
              \A k \in 1..Len(F) : \A r \in Ridges(F[k]) : Cardinality({ m \in 1..Len(F) : r \subseteq S[m] }) = 2
SetOf(s) == { s[k] : k \in 1..Len(s) }
Key(x) == << meas[x].o, meas[x].mu, meas[x].n, SetOf(con[x]) >>
=============================================================================
