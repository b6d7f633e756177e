------------------------------- MODULE CSpaces -------------------------------
(* Configuration spaces (MotionPlanning/CSpace): boundaries, metric, paths and *)
(* validity.                                                                   *)
(*                                                                             *)
(* Numbers are tenths: of a millimetre, or of a degree in the dimensions of    *)
(* limitless revolute joints.  A configuration is a sequence of numbers.       *)
(* env: [ax  : dimension -> 1..3 (moves the tool along x, y, z) or 0 (angle),  *)
(*       hb  : half extents of the tool (a box), p0 : where it starts,         *)
(*       lim : joint limits <<lo, hi>>, obs : Seq([c, h])]                     *)
(* sp : space -> [kind, lo, hi, w, use, samp, dcd, cap, used, con]             *)
(*      w the metric weights, use whether they are used, samp and dcd the      *)
(*      sampling sizes of paths and of collision checks, con a sequence of     *)
(*      half spaces [c, b], used the identifiers of nodes in use               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES env, sp

Dims == 1..Len(env.ax)
Ang(d) == env.ax[d] = 0
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE SqB_(_, _, _)
SqB_(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqB_(n, m, hi) ELSE SqB_(n, lo, m)
ISqrt(n) == SqB_(n, 0, 46341)
(* ten times the square root *)
Root(n) == IF n < 20000000 THEN ISqrt(100 * n) ELSE 10 * ISqrt(n)
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

----------------------------------------------------------------------------
(* metric *)
Wrap(x) == ((x + 1800) % 3600) - 1800
Delta(d, a, b) == IF Ang(d) THEN Wrap(b - a) ELSE b - a
Weight(s, d, W) == IF W /\ sp[s].use THEN sp[s].w[d] ELSE 1
(* a radian counts as a millimetre: (pi/180)^2 = 3.046e-4 *)
SqAng(y) == IF y < 2000 THEN (y * y * 305) \div 1000000
            ELSE IF y < 20000 THEN (((y * y) \div 1000) * 3046) \div 10000 ELSE ((((y \div 10) * (y \div 10)) \div 1000) * 3046) \div 100
Sq1(d, x, w) == IF Ang(d) THEN SqAng(AbsI(x * w)) ELSE x * x * w * w
D2(s, a, b, W) == SumTo([d \in Dims |-> Sq1(d, Delta(d, a[d], b[d]), Weight(s, d, W))], Len(env.ax))
(* distance in hundredths of a millimetre *)
Dist(s, a, b, W) == Root(D2(s, a, b, W))
MaxW(s) == IF sp[s].use THEN MaxSet({ sp[s].w[d] : d \in { d \in Dims : ~Ang(d) } } \cup {1}) ELSE 1
(* half a turn has two directions *)
Opposite(a, b) == \E d \in Dims : Ang(d) /\ AbsI(Delta(d, a[d], b[d])) >= 1790
Same(a, b, t) == \A d \in Dims : AbsI(Delta(d, a[d], b[d])) <= t

(* the configuration at n/m of the way *)
At(a, b, n, m) == [d \in Dims |-> a[d] + (Delta(d, a[d], b[d]) * n) \div m]
(* c lies on the straight line from a to b; t tolerance; dl and el are the      *)
(* differences of b and c to a                                                 *)
OnLineD(dl, el, t) ==
  LET m  == CHOOSE d \in Dims : \A e \in Dims : AbsI(dl[d]) >= AbsI(dl[e])
      g  == IF dl[m] < 0 THEN -1 ELSE 1
  IN /\ g * el[m] >= -t /\ g * el[m] <= AbsI(dl[m]) + t
     /\ \A d \in Dims : AbsI(el[d] * dl[m] - el[m] * dl[d]) <= t * (AbsI(dl[m]) + AbsI(dl[d]))
OnLine(a, b, c, t) == OnLineD([d \in Dims |-> Delta(d, a[d], b[d])], [d \in Dims |-> Delta(d, a[d], c[d])], t)

----------------------------------------------------------------------------
(* boundaries, collisions and constraints: "yes", "no", or "either" when too   *)
(* close to tell; x is a margin                                                *)
InBounds(s, q) == \A d \in Dims : sp[s].lo[d] <= q[d] /\ q[d] <= sp[s].hi[d]
InBoundsT(s, q, x) == IF \A d \in Dims : Ang(d) \/ (sp[s].lo[d] + x <= q[d] /\ q[d] <= sp[s].hi[d] - x) THEN "yes"
                      ELSE IF \A d \in Dims : Ang(d) \/ (sp[s].lo[d] - x <= q[d] /\ q[d] <= sp[s].hi[d] + x) THEN "either" ELSE "no"
Respect(s, q) == [d \in Dims |-> MaxI(sp[s].lo[d], MinI(sp[s].hi[d], q[d]))]
InLimits(q) == \A d \in Dims : Ang(d) \/ (env.lim[d][1] <= q[d] /\ q[d] <= env.lim[d][2])

Tool(q) == [k \in 1..3 |-> env.p0[k] + SumTo([d \in Dims |-> IF env.ax[d] = k THEN q[d] ELSE 0], Len(env.ax))]
(* the largest gap along an axis: negative when the tool penetrates the obstacle *)
GapOf(p, o) == MaxSet({ AbsI(p[k] - o.c[k]) - env.hb[k] - o.h[k] : k \in 1..3 })
Clear(q) == LET p == Tool(q) IN IF Len(env.obs) = 0 THEN 1000000 ELSE MinSet({ GapOf(p, env.obs[j]) : j \in 1..Len(env.obs) })
Free(q, x) == LET g == Clear(q) IN IF g > x THEN "yes" ELSE IF g < -x THEN "no" ELSE "either"
Slack(h, q) == h.b - SumTo([d \in Dims |-> h.c[d] * q[d]], Len(env.ax))
HalfOK(h, q, x) == LET g == Slack(h, q)  n == SumTo([d \in Dims |-> AbsI(h.c[d])], Len(env.ax))
                   IN IF g >= x * n THEN "yes" ELSE IF g < -x * n THEN "no" ELSE "either"
All3(S) == IF "no" \in S THEN "no" ELSE IF "either" \in S THEN "either" ELSE "yes"
Constr(s, q, x) == All3({ HalfOK(sp[s].con[j], q, x) : j \in 1..Len(sp[s].con) })
Valid(s, q, x) == All3({ InBoundsT(s, q, x), Free(q, x), Constr(s, q, x) })
ValidIn(s, q, x) == All3({ Free(q, x), Constr(s, q, x) })
(* squared distance of tool and obstacle, in 0.01 mm^2 *)
Gap2(p, o) == LET g(k) == MaxI(0, AbsI(p[k] - o.c[k]) - env.hb[k] - o.h[k]) IN g(1)*g(1) + g(2)*g(2) + g(3)*g(3)
ObsDist(q) == Root(MinSet({ Gap2(Tool(q), env.obs[j]) : j \in 1..Len(env.obs) }))

----------------------------------------------------------------------------
(* paths of a space: sequences of configurations *)
SqTol(s, size) == 4 * size * MaxW(s) + 3 * MaxW(s) * MaxW(s) + 10
LenTol(s) == 25 * MaxW(s)                       \* of Dist
Ends(p, a, b) == Len(p) >= 1 /\ p[1] = a /\ p[Len(p)] = b
(* the points follow the straight line from a towards b *)
Chain(s, a, b, p) ==
  Opposite(a, b) \/ /\ \A k \in 1..Len(p) : OnLine(a, b, p[k], 2)
                    /\ \A k \in 1..Len(p)-1 : Dist(s, a, p[k], TRUE) <= Dist(s, a, p[k+1], TRUE) + LenTol(s)
Turns(a, b, p) == \A k \in 1..Len(p) : \A d \in Dims : Ang(d) => AbsI(p[k][d]) <= 1801 \/ p[k][d] \in {a[d], b[d]}
(* from a to b in steps of the sampling size; the last one may be up to 5% longer *)
PathOf(s, a, b, p) ==
  LET n == Len(p)  S == sp[s].samp  t == SqTol(s, S)
      q == [k \in 1..n-1 |-> D2(s, p[k], p[k+1], TRUE)]
  IN /\ n >= 1 /\ p[1] = a
     /\ IF sp[s].kind = "plain" THEN p = <<a, b>>
        ELSE IF D2(s, a, b, TRUE) = 0 THEN n <= 2 /\ p[n] = b
        ELSE /\ n >= 2 /\ p[n] = b
             /\ Chain(s, a, b, p) /\ Turns(a, b, p)
             /\ \A k \in 1..n-2 : AbsI(q[k] - S*S) <= t
             /\ q[n-1] <= ((((11026 * S) \div 100) * S) \div 100) + t

(* verdicts of the configurations that are checked on the way from a to b: at  *)
(* every multiple of dcd, and b                                                *)
SampleN(s, a, b) == LET L == Dist(s, a, b, TRUE) \div 10 IN MaxI(0, (L - 1) \div sp[s].dcd)
SampleAt(s, a, b, k) == LET L == Dist(s, a, b, TRUE) IN [d \in Dims |-> a[d] + (((Delta(d, a[d], b[d]) * sp[s].dcd * k) \div 10) * 100) \div L]
SampleV(s, a, b, k) == IF k > SampleN(s, a, b) THEN Valid(s, b, 2) ELSE Valid(s, SampleAt(s, a, b, k), 5)
Way(s, a, b) == IF sp[s].kind = "plain" THEN Valid(s, b, 2)
                ELSE IF a = b THEN "yes"
                ELSE IF Opposite(a, b) THEN "either"
                ELSE All3({ SampleV(s, a, b, k) : k \in 1..SampleN(s, a, b) + 1 })
(* the part of the way from a to b before the first invalid sample: points     *)
(* every samp, the end only when all of it is valid                            *)
UntilOf(s, a, b, p, all) ==
  LET n == Len(p)  W == Way(s, a, b)
      w(k) == Dist(s, p[k], p[k+1], TRUE)
  IN /\ n >= 1 /\ p[1] = a
     /\ W = "yes" => all
     /\ W = "no" => ~all
     /\ all => p[n] = b
     /\ Chain(s, a, b, p) /\ Turns(a, b, p)
     /\ sp[s].kind = "plain" => p = IF all THEN <<a, b>> ELSE <<a>>
     /\ sp[s].kind = "sampled" =>
        /\ \A k \in 1..n-1 : w(k) <= 10 * (sp[s].samp + sp[s].dcd) + LenTol(s)
        /\ ~Opposite(a, b) /\ ~all =>
             \A k \in 1..SampleN(s, a, b) + 1 : SampleV(s, a, b, k) = "no" => Dist(s, a, p[n], TRUE) < 10 * sp[s].dcd * k + LenTol(s)
        /\ ~Opposite(a, b) /\ ~all =>     \* and not stopped too early
             \E k \in 1..SampleN(s, a, b) + 1 : SampleV(s, a, b, k) # "yes" /\ Dist(s, a, p[n], TRUE) + 10 * (sp[s].samp + sp[s].dcd) + LenTol(s) >= 10 * sp[s].dcd * (k - 1)
     /\ \A k \in 2..n : Valid(s, p[k], 2) # "no"

(* a segment is checked by halving it until it is not longer than dcd; the     *)
(* right ends of the parts are checked, without boundaries                     *)
Pow(m) == 2^m
Parts(s, a, b, m) == IF Len(env.obs) = 0 /\ Len(sp[s].con) = 0 THEN "yes"
                     ELSE IF \E k \in 1..Pow(m) : ValidIn(s, At(a, b, k, Pow(m)), IF k = Pow(m) THEN 2 ELSE 5) = "no" THEN "no"
                     ELSE IF \A k \in 1..Pow(m) : ValidIn(s, At(a, b, k, Pow(m)), IF k = Pow(m) THEN 2 ELSE 5) = "yes" THEN "yes" ELSE "either"
Depths(s, a, b) == LET t == 10 * sp[s].dcd
                       r == (1000 * Dist(s, a, b, TRUE)) \div t
                       x == 5 + (3000 * LenTol(s)) \div t
                   IN { m \in 0..12 : r <= 1002 * Pow(m) + x /\ (m = 0 \/ 2 * r >= 1000 * Pow(m) - x) }
Segment(s, a, b) == IF sp[s].kind = "plain" THEN ValidIn(s, b, 2)
                    ELSE IF Opposite(a, b) THEN "either"
                    ELSE LET V == { Parts(s, a, b, m) : m \in Depths(s, a, b) }
                         IN IF V = {"yes"} THEN "yes" ELSE IF V = {"no"} THEN "no" ELSE "either"
=============================================================================
