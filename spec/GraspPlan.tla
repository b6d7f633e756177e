----------------------------- MODULE GraspPlan -----------------------------
(* Planning grasps: a generator owns a copy of a hand and moves it to places   *)
(* on the surface of an object; a planner closes the hand there, rates what it *)
(* touches and collects the grasps it accepts.  Poses the generator draws are  *)
(* not on the lattice: they are given as 12 integers, rotation in 1/10000 and  *)
(* position in 1/100 mm, and compared with a tolerance.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lattice

VARIABLES
  ob,      \* object -> lattice pose
  shp,     \* object -> sequence of blocks <<hx,hy,hz, cx,cy,cz>> in its own frame
  hnd,     \* what is known about the hand: [rt, name, hj, lo, pre, ptcp]
  orig,    \* the robot the hand belongs to: [p, q]
  gen,     \* the generator: [o, pre, ret, area], or None
  eef,     \* pose of the generator's hand (not on the lattice)
  cq,      \* joint values of the generator's hand, 1/100
  par,     \* the planner: [q, fc, retr], or None
  obst,    \* names of the obstacles
  cnt,     \* counters of the evaluation: [gen, ok, col, fc, con]
  size     \* number of grasps in the grasp set
gvars == <<ob, shp, hnd, orig, gen, eef, cq, par, obst, cnt, size>>
None == [none |-> TRUE]
Zero == [gen |-> 0, ok |-> 0, col |-> 0, fc |-> 0, con |-> 0]

Ab(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tr, tp) == /\ Len(a) = 12 /\ Len(b) = 12
                      /\ \A k \in 1..9 : Ab(a[k] - b[k]) <= tr
                      /\ \A k \in 10..12 : Ab(a[k] - b[k]) <= tp
Close(a, b) == Near(a, b, 20, 5 + Ab(b[10]) \div 40000 + Ab(b[11]) \div 40000 + Ab(b[12]) \div 40000)
(* a lattice pose in the finer units *)
Fine(p) == [k \in 1..12 |-> IF k <= 9 THEN 10000 * p[k] ELSE 100 * p[k]]
Shift(p, v) == [k \in 1..12 |-> IF k <= 9 THEN p[k] ELSE p[k] + 100 * v[k - 9]]
(* lattice motion applied to a fine pose *)
Act(m, p) == << m[1]*p[1]+m[2]*p[4]+m[3]*p[7], m[1]*p[2]+m[2]*p[5]+m[3]*p[8], m[1]*p[3]+m[2]*p[6]+m[3]*p[9],
                m[4]*p[1]+m[5]*p[4]+m[6]*p[7], m[4]*p[2]+m[5]*p[5]+m[6]*p[8], m[4]*p[3]+m[5]*p[6]+m[6]*p[9],
                m[7]*p[1]+m[8]*p[4]+m[9]*p[7], m[7]*p[2]+m[8]*p[5]+m[9]*p[8], m[7]*p[3]+m[8]*p[6]+m[9]*p[9],
                m[1]*p[10]+m[2]*p[11]+m[3]*p[12]+100*m[10],
                m[4]*p[10]+m[5]*p[11]+m[6]*p[12]+100*m[11],
                m[7]*p[10]+m[8]*p[11]+m[9]*p[12]+100*m[12] >>
(* a point in 1/100 mm and a direction, seen from lattice pose p *)
LocalP(p, v) == LET d == << v[1] - 100*p[10], v[2] - 100*p[11], v[3] - 100*p[12] >> IN
                << p[1]*d[1]+p[4]*d[2]+p[7]*d[3], p[2]*d[1]+p[5]*d[2]+p[8]*d[3], p[3]*d[1]+p[6]*d[2]+p[9]*d[3] >>
LocalD(p, d) == << p[1]*d[1]+p[4]*d[2]+p[7]*d[3], p[2]*d[1]+p[5]*d[2]+p[8]*d[3], p[3]*d[1]+p[6]*d[2]+p[9]*d[3] >>
GlobalP(p, v) == << p[1]*v[1]+p[2]*v[2]+p[3]*v[3]+100*p[10], p[4]*v[1]+p[5]*v[2]+p[6]*v[3]+100*p[11], p[7]*v[1]+p[8]*v[2]+p[9]*v[3]+100*p[12] >>
ZAxis(p) == << p[3], p[6], p[9] >>

(* ---- the surface of an object made of blocks; l, d in the object's frame, d in 1/1000 ---- *)
Faces(o) == { <<b, k, s>> : b \in 1..Len(shp[o]), k \in 1..3, s \in {-1, 1} }
Normal(f, d) == \A k \in 1..3 : Ab(d[k] - (IF k = f[2] THEN 1000 * f[3] ELSE 0)) <= 5
Above(o, f, l, tol) ==       \* height over the plane of the face, when l is over the face; -10^6 otherwise
  LET b == shp[o][f[1]] IN
  IF \A k \in 1..3 \ {f[2]} : Ab(l[k] - 100 * b[k + 3]) <= 100 * b[k] + tol
  THEN f[3] * (l[f[2]] - 100 * b[f[2] + 3]) - 100 * b[f[2]] ELSE -1000000
Tol(l) == 6 + (Ab(l[1]) + Ab(l[2]) + Ab(l[3])) \div 30000
OnFace(o, f, l, d) == Normal(f, d) /\ Ab(Above(o, f, l, Tol(l))) <= Tol(l)
OnSurface(o, l) == \E f \in Faces(o) : Ab(Above(o, f, l, Tol(l))) <= Tol(l)
(* blocks that a point with a normal can come from *)
From(o, p, d) == { f[1] : f \in { f \in Faces(o) : OnFace(o, f, LocalP(ob[o], p), LocalD(ob[o], d)) } }
Area(b) == 8 * (b[1]*b[2] + b[2]*b[3] + b[1]*b[3])
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Area(Head(s)) + Total(Tail(s))
Negligible(o, b) == Area(shp[o][b]) < Total(shp[o]) \div 1000000
(* the hand stands over a face of the object and looks against its normal *)
Approach(o, p, d) ==
  LET pos == LocalP(ob[o], <<p[10], p[11], p[12]>>)  ld == LocalD(ob[o], d)  z == ZAxis(p) IN
  /\ \A k \in 1..3 : Ab(z[k] + 10 * d[k]) <= 30
  /\ \E f \in Faces(o) : Normal(f, ld) /\ Above(o, f, pos, Tol(pos)) >= -Tol(pos)
Rigid(p) == \A a \in 1..3, b \in 1..3 :
  LET s == (p[a] * p[b]) \div 1000 + (p[a+3] * p[b+3]) \div 1000 + (p[a+6] * p[b+6]) \div 1000 IN Ab(s - (IF a = b THEN 100000 ELSE 0)) <= 200

(* ---- what opening the hand may do to its joints ---- *)
Pre == IF gen.pre = "-" THEN [none |-> TRUE] ELSE hnd.pre[gen.pre]
Opened(old, new) ==
  /\ DOMAIN new = DOMAIN old
  /\ IF gen.pre # "-"
     THEN \A j \in DOMAIN new : new[j] = (IF j \in DOMAIN Pre THEN 100 * Pre[j] ELSE old[j])
     ELSE \A j \in hnd.hj : new[j] <= old[j] /\ new[j] >= 100 * hnd.lo[j] - 1

(* ---- the planner's books ---- *)
Sum(c) == c.ok + c.col + c.fc + c.con
Books(c) == c.gen = Sum(c)
Step1(c, k) == [c EXCEPT !.gen = @ + 1, ![k] = @ + 1]
GName(n) == "Grasp " \o ToString(n)
=============================================================================
