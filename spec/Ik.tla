--------------------------------- MODULE Ik ---------------------------------
(* Inverse kinematics.  Robots are trees of fixed, revolute and prismatic      *)
(* nodes; joint values are thousandths of a degree / millimetre.  At joint     *)
(* values that keep the frames on the lattice, Jacobians, errors, centres of   *)
(* mass and constraint functions are exact integers (or rationals) and are     *)
(* derived here from the poses.  What a solver leaves behind is not on the     *)
(* lattice: it is an arbitrary choice, restricted by the contract              *)
(* (SolveAllowed): a reported success is a configuration that satisfies the    *)
(* goals within the tolerances and the joint limits, nothing but the joints of *)
(* the set has moved, and the poses fit the joint values.                      *)
EXTENDS Lattice, FiniteSets, TLC

VARIABLES rb,    \* robot -> [nd, pose, q, set, mass...]
          dik,   \* differential IK object -> [r, set, coord, mm, maxs, meth, goals]
          com,   \* centre of mass IK -> [r, j, b, coord, dims, v, tol]
          gik,   \* generic solver -> [r, set, tp, tr, obs, reach]
          obj,   \* manipulation object -> [p, gr (sequence of grasp poses), def]
          hier,  \* hierarchical solver -> [r, set, dks, cks, jla]
          con,   \* constraint -> record
          cik    \* constrained solver -> [r, set, ty, cs]
ivars == <<rb, dik, com, gik, obj, hier, con, cik>>

Ab(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross3(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Sub3(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Add3(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Mul3(k, a) == <<k*a[1], k*a[2], k*a[3]>>
Turn3(p, v) == <<p[1]*v[1]+p[2]*v[2]+p[3]*v[3], p[4]*v[1]+p[5]*v[2]+p[6]*v[3], p[7]*v[1]+p[8]*v[2]+p[9]*v[3]>>
TurnBack(p, v) == <<p[1]*v[1]+p[4]*v[2]+p[7]*v[3], p[2]*v[1]+p[5]*v[2]+p[8]*v[3], p[3]*v[1]+p[6]*v[2]+p[9]*v[3]>>
Zero3 == <<0, 0, 0>>
(* twice the length of d is below / not above b *)
Below(d, b) == (\A k \in 1..3 : 2 * Ab(d[k]) <= b) /\ 4 * Dot3(d, d) < b * b
NotAbove(d, b) == (\A k \in 1..3 : 2 * Ab(d[k]) <= b) /\ 4 * Dot3(d, d) <= b * b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

----------------------------------------------------------------------------
(* kinematics *)
Nds(r) == DOMAIN rb[r].nd
Nd(r, n) == rb[r].nd[n]
Kind(r, n) == Nd(r, n).typ
IsJ(r, n) == Kind(r, n) # "fixed"
Motion(nd, v) ==
  CASE nd.typ = "rev"  -> IF v % 1000 = 0 THEN Rot(nd.ax, v \div 1000) ELSE Unknown
    [] nd.typ = "pris" -> IF v % 1000 = 0 THEN Trans(Mul3(v \div 1000, nd.ax)) ELSE Unknown
    [] OTHER -> IdPose
RECURSIVE Gp(_, _)
Gp(r, n) == LET d == Nd(r, n) IN Mul(IF d.par = "" THEN rb[r].pose ELSE Gp(r, d.par), Mul(d.loc, Motion(d, IF IsJ(r, n) THEN rb[r].q[n] ELSE 0)))
RECURSIVE Up(_, _)
Up(r, n) == IF n = "" THEN {} ELSE {n} \cup Up(r, Nd(r, n).par)      \* n and everything above it
Known(r) == \A n \in Nds(r) : Gp(r, n) # Unknown

SetOf(r, s) == rb[r].set[s].n
TcpOf(r, s, t) == IF t = "-" THEN rb[r].set[s].tcp ELSE t
JointsOf(r, s) == { SetOf(r, s)[k] : k \in 1..Len(SetOf(r, s)) }

----------------------------------------------------------------------------
(* how a point x rigidly attached to node n moves with joint j, seen in frame c *)
InFrame(r, c, v) == IF c = "-" THEN v ELSE TurnBack(Gp(r, c), v)
ColPos(r, j, n, x, c) ==
  IF j \notin Up(r, n) THEN Zero3
  ELSE LET g == Gp(r, j)  a == Turn3(g, Nd(r, j).ax) IN
       InFrame(r, c, CASE Kind(r, j) = "rev" -> Cross3(a, Sub3(x, Pos(g))) [] Kind(r, j) = "pris" -> a [] OTHER -> Zero3)
ColRot(r, j, n, c) == IF j \in Up(r, n) /\ Kind(r, j) = "rev" THEN InFrame(r, c, Turn3(Gp(r, j), Nd(r, j).ax)) ELSE Zero3

(* CartesianSelection: bits X=1 Y=2 Z=4 orientation=8 *)
SelSeq(s) == (IF s % 2 = 1 THEN <<1>> ELSE <<>>) \o (IF (s \div 2) % 2 = 1 THEN <<2>> ELSE <<>>) \o (IF (s \div 4) % 2 = 1 THEN <<3>> ELSE <<>>)
OriSel(s) == s >= 8
(* rows of the Jacobian times sc; with metres, revolute position entries are thousandths *)
JacRows(r, s, t, sl, c, mm, sc) ==
  LET js == SetOf(r, s)  x == Pos(Gp(r, t))
      e(k, j) == LET v == ColPos(r, j, t, x, c)[k] IN IF mm /\ Kind(r, j) = "rev" THEN (v * sc) \div 1000 ELSE v * sc
  IN [i \in 1..Len(SelSeq(sl)) |-> [k \in 1..Len(js) |-> e(SelSeq(sl)[i], js[k])]]
     \o (IF OriSel(sl) THEN [i \in 1..3 |-> [k \in 1..Len(js) |-> sc * ColRot(r, js[k], t, c)[i]]] ELSE <<>>)

----------------------------------------------------------------------------
(* rotation vectors (thousandths of a degree) of lattice rotations *)
Trace3(p) == p[1] + p[5] + p[9]
Skew3(p) == <<p[8] - p[6], p[3] - p[7], p[4] - p[2]>>
Angle(p) == CASE Trace3(p) = 3 -> 0 [] Trace3(p) = 1 -> 90000 [] Trace3(p) = 0 -> 120000 [] OTHER -> 180000
RotVecOK(p, v, tol) ==       \* v is a rotation vector of p
  CASE Trace3(p) = 3 -> \A k \in 1..3 : Ab(v[k]) <= tol
    [] Trace3(p) = 1 -> \A k \in 1..3 : Ab(v[k] - 45000 * Skew3(p)[k]) <= tol
    [] Trace3(p) = 0 -> \A k \in 1..3 : Ab(v[k] - 69282 * Skew3(p)[k]) <= tol
    [] OTHER -> /\ \A k \in 1..3 : LET d == p[4*k - 3] IN Ab(Ab(v[k]) - (IF d = 1 THEN 180000 ELSE IF d = 0 THEN 127279 ELSE 0)) <= 3 * tol
                /\ \A k, l \in 1..3 : (k < l /\ p[3*(k-1)+l] # 0) => v[k] * p[3*(k-1)+l] * (IF v[l] > 0 THEN 1 ELSE -1) > 0
DeltaRot(cur, goal) == Mul(goal, Inv(cur))
DiffSel(d, sl) == <<IF 1 \in {SelSeq(sl)[k] : k \in 1..Len(SelSeq(sl))} THEN d[1] ELSE 0,
                    IF 2 \in {SelSeq(sl)[k] : k \in 1..Len(SelSeq(sl))} THEN d[2] ELSE 0,
                    IF 3 \in {SelSeq(sl)[k] : k \in 1..Len(SelSeq(sl))} THEN d[3] ELSE 0>>
PosErr2(r, g) == LET d == DiffSel(Sub3(Pos(g.p), Pos(Gp(r, g.t))), g.sel) IN Dot3(d, d)
RotErr(r, g) == IF OriSel(g.sel) THEN Angle(DeltaRot(Gp(r, g.t), g.p)) ELSE 0
GoalMet(r, g) == 4 * PosErr2(r, g) <= g.tp * g.tp /\ RotErr(r, g) <= 1000 * g.tr

----------------------------------------------------------------------------
(* centres of mass: weighted sums, the weight is the denominator *)
Mass(r, ns) == SumSeq([k \in 1..Len(ns) |-> Nd(r, ns[k]).mass])
CoMg(r, n) == Apply(Gp(r, n), Nd(r, n).com)
RECURSIVE Sum3(_)
Sum3(s) == IF s = <<>> THEN Zero3 ELSE Add3(s[1], Sum3(Tail(s)))
MassPos(r, ns) == Sum3([k \in 1..Len(ns) |-> Mul3(Nd(r, ns[k]).mass, CoMg(r, ns[k]))])
MassCol(r, bs, j, c) == Sum3([k \in 1..Len(bs) |-> Mul3(Nd(r, bs[k]).mass, ColPos(r, j, bs[k], CoMg(r, bs[k]), c))])

----------------------------------------------------------------------------
(* Moore-Penrose inverses of integer matrices; P is scaled by S *)
MM(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumSeq([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
Tr(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
Near(A, B, tol) == \A i \in 1..Len(A) : \A j \in 1..Len(A[1]) : Ab(A[i][j] - B[i][j]) <= tol
Scale(k, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> k * A[i][j]]]
PlusLambda(A, l) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> A[i][j] + (IF i = j THEN l * l ELSE 0)]]
IsPinv(J, P, S, tol) ==
  LET JP == MM(J, P)  PJ == MM(P, J) IN
  /\ Near(MM(JP, J), Scale(S, J), tol) /\ Near(JP, Tr(JP), tol) /\ Near(PJ, Tr(PJ), tol)
  /\ \A i \in 1..Len(P) : \A k \in 1..Len(P[1]) :        \* P J P = P, with P J back in units
        Ab(SumSeq([m \in 1..Len(P) |-> (PJ[i][m] \div 100) * (P[m][k] \div 100)]) \div (S \div 10000) - P[i][k]) <= tol + 200 * Len(P)
IsDamped(J, P, S, l, tol) == Near(MM(P, PlusLambda(MM(J, Tr(J)), l)), Scale(S, Tr(J)), tol)

----------------------------------------------------------------------------
(* what a configuration off the lattice has to satisfy.  t: observed pose,     *)
(* rotation in 1/20000 and position in 1/100 mm                                *)
Cos20000(d) == CASE d = 0 -> 20000 [] d = 5 -> 19924 [] d = 10 -> 19696 [] d = 20 -> 18794 [] d = 60 -> 10000 [] d = 100 -> -3473 [] OTHER -> -20000
Within(d, tol) == (\A k \in 1..3 : Ab(d[k]) <= tol) /\ Dot3(d, d) <= tol * tol
FinePos(t) == <<t[10], t[11], t[12]>>
FineSel(t, p, sl) == DiffSel(Sub3(FinePos(t), Mul3(100, Pos(p))), sl)
TraceWith(p, t) == p[1]*t[1] + p[2]*t[2] + p[3]*t[3] + p[4]*t[4] + p[5]*t[5] + p[6]*t[6] + p[7]*t[7] + p[8]*t[8] + p[9]*t[9]
RotWithin(p, t, tr) == TraceWith(p, t) >= 20000 + 2 * Cos20000(tr) - 14
FineMet(g, t) == Within(FineSel(t, g.p, g.sel), 50 * g.tp + 4) /\ (OriSel(g.sel) => RotWithin(g.p, t, g.tr))

(* the centre of mass c (1/100 mm) near v in the first n dimensions *)
CoMWithin(c, v, n, tp) == LET d == [k \in 1..3 |-> IF k <= n THEN c[k] - 100 * v[k] ELSE 0] IN Within(d, 50 * tp + 4)

(* frame of a task space region *)
TsrPoint(k, t) == LET o == Pos(k.off)  w == <<t[1]*o[1]+t[2]*o[2]+t[3]*o[3], t[4]*o[1]+t[5]*o[2]+t[6]*o[3], t[7]*o[1]+t[8]*o[2]+t[9]*o[3]>>
                  IN TurnBack(k.p, Sub3(Add3(FinePos(t), <<w[1] \div 200, w[2] \div 200, w[3] \div 200>>), Mul3(100, Pos(k.p))))
Excess(x, lo, hi) == IF x < lo THEN x - lo ELSE IF x > hi THEN x - hi ELSE 0
TsrFineMet(k, t) ==
  LET x == TsrPoint(k, t) IN
  /\ Within([i \in 1..3 |-> Excess(x[i], 100 * k.v[2*i - 1], 100 * k.v[2*i])], 50 * k.tp + 8)
  /\ k.v[7] = 0 => RotWithin(Mul(k.p, Inv(k.off)), t, k.tr)
TsrMet(r, k) ==
  LET T == Mul(Inv(k.p), Mul(Gp(r, k.t), k.off))
      d == [i \in 1..3 |-> Excess(Pos(T)[i], k.v[2*i - 1], k.v[2*i])]
  IN 4 * Dot3(d, d) < k.tp * k.tp /\ (k.v[7] = 0 => Angle(T) < 1000 * k.tr)

(* constraints at lattice configurations: "yes", "no" *)
PosOnly(sl) == IF sl = 15 THEN 7 ELSE IF sl = 8 THEN 0 ELSE sl
OriOnly(sl) == IF OriSel(sl) THEN 8 ELSE 0
ConGoal(k) == CASE k.kind = "pos" -> [t |-> k.t, p |-> k.p, sel |-> PosOnly(k.sel), tp |-> k.tp, tr |-> k.tr]
                [] k.kind = "ori" -> [t |-> k.t, p |-> k.p, sel |-> OriOnly(k.sel), tp |-> k.tp, tr |-> k.tr]
                [] OTHER -> [t |-> k.t, p |-> k.p, sel |-> k.sel, tp |-> k.tp, tr |-> k.tr]
ComDims(k) == IF k.kind = "com2" THEN 2 ELSE 3
ConMet(r, k) ==
  CASE k.kind \in {"pos", "ori", "pose"} -> GoalMet(r, ConGoal(k))
    [] k.kind \in {"com2", "com3"} ->
         LET bs == SetOf(r, k.t)  m == Mass(r, bs)  s == MassPos(r, bs)
             d == [i \in 1..3 |-> IF i <= ComDims(k) THEN s[i] - m * Pos(k.p)[i] ELSE 0]
         IN NotAbove(d, m * k.tp)
    [] OTHER -> TsrMet(r, k)
ConFineMet(k, t, c, col) ==
  CASE k.kind \in {"pos", "ori", "pose"} -> FineMet(ConGoal(k), t)
    [] k.kind \in {"com2", "com3"} -> CoMWithin(c, Pos(k.p), ComDims(k), k.tp)
    [] k.kind = "tsr" -> TsrFineMet(k, t)
    [] k.kind = "col" -> ~col
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* the contract of every solver: q2 are the joint values after, js the joints  *)
(* it may move                                                                  *)
InRange(r, n, v) == Nd(r, n).lo - 2 <= v /\ v <= Nd(r, n).hi + 2
MayMove(r, js, q2) == \A n \in DOMAIN q2 : IF n \in js THEN InRange(r, n, q2[n]) ELSE Ab(q2[n] - rb[r].q[n]) <= 1
Kept(r, q2) == \A n \in DOMAIN q2 : Ab(q2[n] - rb[r].q[n]) <= 2

(* deterministic actions *)
SetQ(r, m) == rb' = [rb EXCEPT ![r].q = [n \in DOMAIN rb[r].q |-> IF n \in DOMAIN m THEN m[n] ELSE rb[r].q[n]]]
Place(r, p) == rb' = [rb EXCEPT ![r].pose = p]
AddGoal(x, g) ==
  LET gs == dik[x].goals
      old == { k \in 1..Len(gs) : gs[k].t = g.t }
  IN dik' = [dik EXCEPT ![x].goals = IF old = {} THEN Append(gs, g) ELSE [gs EXCEPT ![CHOOSE k \in old : TRUE] = g]]

(* the properties of the model itself *)
(* a Jacobian column is the difference of the poses before and after a half    *)
(* turn of the joint is mirrored on its axis: moving by the column keeps the   *)
(* distance to the axis                                                        *)
InvPerp == \A r \in DOMAIN rb : \A j \in Nds(r) : \A n \in Nds(r) :
             (Kind(r, j) = "rev" /\ j \in Up(r, n) /\ Known(r)) =>
               LET v == ColPos(r, j, n, Pos(Gp(r, n)), "-") IN
               Dot3(v, Turn3(Gp(r, j), Nd(r, j).ax)) = 0 /\ Dot3(v, Sub3(Pos(Gp(r, n)), Pos(Gp(r, j)))) = 0
=============================================================================
