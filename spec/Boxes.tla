-------------------------------- MODULE Boxes --------------------------------
(* Exact geometry of boxes in integers.                                        *)
(* A shape is a sequence of boxes [h, a, c]: half extents, the three axes as   *)
(* columns of a rotation matrix scaled by 25 (nine integers, row by row) and   *)
(* the centre.  A placed box has its axes and centre in the global frame.      *)
(* Collision models are surfaces: a box strictly inside another one does not   *)
(* touch it.                                                                   *)
EXTENDS Lattice, FiniteSets

Ab(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross(u, v) == <<u[2]*v[3]-u[3]*v[2], u[3]*v[1]-u[1]*v[3], u[1]*v[2]-u[2]*v[1]>>
Minus(u, v) == <<u[1]-v[1], u[2]-v[2], u[3]-v[3]>>
L1(v) == Ab(v[1]) + Ab(v[2]) + Ab(v[3])
Turn(p, v) == << p[1]*v[1]+p[2]*v[2]+p[3]*v[3], p[4]*v[1]+p[5]*v[2]+p[6]*v[3], p[7]*v[1]+p[8]*v[2]+p[9]*v[3] >>

(* box b of a model that is at pose p *)
Place(p, b) == [c |-> Apply(p, b.c), h |-> b.h,
                e |-> << Turn(p, <<b.a[1], b.a[4], b.a[7]>>), Turn(p, <<b.a[2], b.a[5], b.a[8]>>), Turn(p, <<b.a[3], b.a[6], b.a[9]>>) >>]
PointBox(v) == [c |-> v, h |-> <<0,0,0>>, e |-> << <<25,0,0>>, <<0,25,0>>, <<0,0,25>> >>]

(* extent of b along l, times 25 *)
Ext(b, l) == b.h[1] * Ab(Dot(b.e[1], l)) + b.h[2] * Ab(Dot(b.e[2], l)) + b.h[3] * Ab(Dot(b.e[3], l))
(* the gap between two boxes along l, times 25 |l|; negative when they overlap *)
Gap(b, d, l) == 25 * Ab(Dot(Minus(b.c, d.c), l)) - Ext(b, l) - Ext(d, l)

Axes(b, d) == { b.e[1], b.e[2], b.e[3], d.e[1], d.e[2], d.e[3] }
              \cup { Cross(b.e[x], d.e[y]) : x, y \in 1..3 }
Aligned(b) == \A k \in 1..3 : Cardinality({ j \in 1..3 : b.e[k][j] # 0 }) = 1

(* d strictly inside b: -1 no, 0 too close to say, 1 yes *)
Inside(d, b) ==
  LET slack(k) == 625 * b.h[k] - 25 * Ab(Dot(Minus(d.c, b.c), b.e[k])) - Ext(d, b.e[k])
      m == CHOOSE x \in { slack(k) : k \in 1..3 } : \A k \in 1..3 : x <= slack(k)
  IN IF m > 25 THEN 1 ELSE IF m < -25 THEN -1 ELSE 0

(* do the surfaces meet?  "yes", "no" or "either" when they merely touch *)
Meet(b, d) ==
  LET ax == IF Aligned(b) /\ Aligned(d) THEN { b.e[1], b.e[2], b.e[3] } ELSE Axes(b, d) \ { <<0,0,0>> }
  IN IF \E l \in ax : Gap(b, d, l) > L1(l) THEN "no"
     ELSE IF \E l \in ax : Gap(b, d, l) >= -L1(l) THEN "either"
     ELSE LET x == Mx(Inside(b, d), Inside(d, b)) IN IF x = 1 THEN "no" ELSE IF x = 0 THEN "either" ELSE "yes"
Sum3(S) == IF "yes" \in S THEN "yes" ELSE IF "either" \in S THEN "either" ELSE "no"

(* interval of an aligned box along coordinate k *)
HalfOf(b, k) == LET j == CHOOSE j \in 1..3 : b.e[j][k] # 0 IN b.h[j]
Lo(b, k) == b.c[k] - HalfOf(b, k)
Hi(b, k) == b.c[k] + HalfOf(b, k)
(* squared distance of the surfaces of two aligned boxes *)
Dist2(b, d) ==
  LET g(k) == Mx(0, Mx(Lo(b,k) - Hi(d,k), Lo(d,k) - Hi(b,k)))
      within(x, y) == \A k \in 1..3 : Lo(y,k) <= Lo(x,k) /\ Hi(x,k) <= Hi(y,k)
      room(x, y) == LET S == { Lo(x,k) - Lo(y,k) : k \in 1..3 } \cup { Hi(y,k) - Hi(x,k) : k \in 1..3 } IN CHOOSE s \in S : \A t \in S : s <= t
      sq == g(1)*g(1) + g(2)*g(2) + g(3)*g(3)
  IN IF sq > 0 THEN sq ELSE IF within(b, d) THEN room(b, d)*room(b, d) ELSE IF within(d, b) THEN room(d, b)*room(d, b) ELSE 0

(* the corners of a placed box, times 25 *)
Corners(b) == { << 25*b.c[1] + x*b.h[1]*b.e[1][1] + y*b.h[2]*b.e[2][1] + z*b.h[3]*b.e[3][1],
                   25*b.c[2] + x*b.h[1]*b.e[1][2] + y*b.h[2]*b.e[2][2] + z*b.h[3]*b.e[3][2],
                   25*b.c[3] + x*b.h[1]*b.e[1][3] + y*b.h[2]*b.e[2][3] + z*b.h[3]*b.e[3][3] >> : x, y, z \in {-1, 1} }
(* the observed points p of b and q of d (times 25) are nearest to each other:  *)
(* every corner lies behind the plane through its point                         *)
Nearest(b, d, p, q) ==
  LET n == Minus(q, p)
      far(v, w) == L1(n) + L1(Minus(v, w)) + 20
  IN /\ \A v \in Corners(b) : Dot(Minus(v, p), n) <= 3 * far(v, p)
     /\ \A w \in Corners(d) : Dot(Minus(w, q), n) >= -3 * far(w, q)
(* the point p (times 25) belongs to the box, up to rounding *)
In25(b, p) == \A k \in 1..3 : Ab(Dot(Minus(p, <<25*b.c[1], 25*b.c[2], 25*b.c[3]>>), b.e[k])) <= 625 * b.h[k] + 60
Near0(v, w, t) == Ab(v - w) <= t
(* d10 (distance times 10, rounded) agrees with a squared distance *)
DistIs(d10, sq) == (IF d10 <= 1 THEN TRUE ELSE (d10-1)*(d10-1) <= 100*sq) /\ 100*sq <= (d10+1)*(d10+1)
Small(b) == \A k \in 1..3 : Ab(b.c[k]) < 500 /\ b.h[k] < 150
=============================================================================
