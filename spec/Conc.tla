--------------------------------- MODULE Conc ---------------------------------
(* Concurrent access to robots.  Every operation of a thread takes effect at   *)
(* one moment between its call and its return (Lin): a writer changes joint    *)
(* values and the pose of the robot at once, a reader sees one state.  While   *)
(* a thread holds the lock of a robot, operations of other threads on that     *)
(* robot take no effect, so none of them returns.                              *)
EXTENDS Lattice, FiniteSets, TLC
VARIABLES rb,    \* robot -> [nd, q, p (pose), set]
          pend,  \* thread -> [o (operation), lin, v (value it will return)]
          own    \* robot -> [t, d]: the holder of its lock, how often it was taken
cvars == <<rb, pend, own>>

Nd(r, n) == rb[r].nd[n]
Joints(r) == { n \in DOMAIN rb[r].nd : rb[r].nd[n].typ # "fixed" }
Clamp(d, v) == IF v < d.lo THEN d.lo ELSE IF v > d.hi THEN d.hi ELSE v
Motion(d, v) == CASE d.typ = "rev" -> Rot(d.ax, v) [] d.typ = "pris" -> Trans(<<v*d.ax[1], v*d.ax[2], v*d.ax[3]>>) [] OTHER -> IdPose
RECURSIVE Fk(_, _, _, _)
Fk(nd, q, p, n) == Mul(IF nd[n].par = "-" THEN p ELSE Fk(nd, q, p, nd[n].par), Mul(nd[n].loc, Motion(nd[n], IF n \in DOMAIN q THEN q[n] ELSE 0)))
Gp(r, n) == Fk(rb[r].nd, rb[r].q, rb[r].p, n)
Root(r) == CHOOSE n \in DOMAIN rb[r].nd : rb[r].nd[n].par = "-"

Lacks(o) == \E k \in 1..Len(o.ns) : o.ns[k] \notin DOMAIN rb[o.r].nd
(* joint values after assigning vs to ns *)
Assign(r, ns, vs) == [n \in DOMAIN rb[r].q |-> IF \E k \in 1..Len(ns) : ns[k] = n THEN Clamp(Nd(r, n), vs[CHOOSE k \in 1..Len(ns) : ns[k] = n]) ELSE rb[r].q[n]]
Sc(m, v) == <<m*v[1], m*v[2], m*v[3]>>
Plus(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN <<0, 0, 0>> ELSE LET n == CHOOSE n \in S : TRUE IN Plus(f[n], SumOver(S \ {n}, f))
Com(r, S) == SumOver(S, [n \in S |-> Sc(Nd(r, n).mass, Apply(Gp(r, n), Nd(r, n).com))])
Turn(p, v) == <<p[1]*v[1]+p[2]*v[2]+p[3]*v[3], p[4]*v[1]+p[5]*v[2]+p[6]*v[3], p[7]*v[1]+p[8]*v[2]+p[9]*v[3]>>
Done == <<0>>
Failed == <<-1>>

SetWriters == {"set", "seteig", "setcfg", "rset", "rseteig", "rsetcfg", "traj"}
Assigners == SetWriters \cup {"node", "rob", "robn", "map", "mapn", "mapu", "vec", "cfg", "cfg0", "cfgr", "cfgo", "setconfig"}
Locks == {"rlock", "wlock", "unlock"}
Refused == {"short", "nonode"}   \* wrong arguments: may be refused before the lock is taken

(* the new pose of the robot *)
NewPose(r, o) ==
  CASE o.o \in {"pose", "pose0"} -> o.p
    [] o.o = "fornode" -> Mul(Mul(o.p, Inv(Gp(r, o.n))), rb[r].p)
    [] o.o = "posfornode" -> SetPos(rb[r].p, [k \in 1..3 |-> rb[r].p[9+k] + o.p[9+k] - Gp(r, o.n)[9+k]])
    [] OTHER -> rb[r].p

(* what an operation returns when it takes effect now *)
Value(o) ==
  LET r == o.r IN
  CASE o.o = "q" -> <<rb[r].q[o.n]>>
    [] o.o = "gp" -> Gp(r, o.n)
    [] o.o = "gpos" -> Pos(Gp(r, o.n))
    [] o.o = "gpose" -> Mul(Gp(r, o.n), o.p)
    [] o.o = "inroot" -> Mul(Inv(Gp(r, Root(r))), Gp(r, o.n))
    [] o.o = "posroot" -> Pos(Mul(Inv(Gp(r, Root(r))), Gp(r, o.n)))
    [] o.o = "inrootp" -> Mul(Mul(Inv(Gp(r, Root(r))), Gp(r, o.n)), o.p)
    [] o.o = "local" -> Mul(Inv(Gp(r, o.n)), o.p)
    [] o.o = "global" -> Mul(Gp(r, o.n), o.p)
    [] o.o = "base" -> rb[r].p
    [] o.o = "where" -> Mul(Mul(o.p, Inv(Gp(r, o.n))), rb[r].p)
    [] o.o \in {"getset", "getsetv", "getseteig", "getsetcfg", "getsetmap", "getcfg"} -> [k \in 1..Len(o.ns) |-> rb[r].q[o.ns[k]]]
    [] o.o = "com" -> Com(r, DOMAIN rb[r].nd)
    [] o.o = "scom" -> Com(r, { rb[r].set[o.n][k] : k \in 1..Len(rb[r].set[o.n]) })
    [] o.o \in {"axis", "dir"} -> LET a == Turn(Gp(r, o.n), Nd(r, o.n).ax) IN IF o.m = "-" THEN a ELSE Turn(Inv(Gp(r, o.m)), a)
    [] o.o = "clone" -> [k \in 1..Len(o.ns) |-> rb[r].q[o.ns[k]]] \o Gp(r, o.n)
    [] o.o \in Refused -> Failed
    [] o.o = "cfgo" -> IF Lacks(o) THEN Failed ELSE Done
    [] OTHER -> Done

Free(t, r) == own[r].t \in {0, t}
(* operation o of thread t takes effect *)
Effect(t, o) ==
  LET r == o.r IN
  /\ o.o \in Refused \/ Free(t, r)
  /\ IF o.o \in Locks
     THEN /\ own' = [own EXCEPT ![r] = IF o.o = "unlock" THEN (IF @.d = 1 THEN [t |-> 0, d |-> 0] ELSE [t |-> t, d |-> @.d - 1]) ELSE [t |-> t, d |-> @.d + 1]]
          /\ UNCHANGED rb
     ELSE /\ rb' = IF o.o = "cfgo" /\ Lacks(o) THEN rb
                   ELSE IF o.o \in Assigners THEN [rb EXCEPT ![r].q = Assign(r, o.ns, o.k)]
                   ELSE IF o.o \in {"pose", "pose0", "fornode", "posfornode"} THEN [rb EXCEPT ![r].p = NewPose(r, o)]
                   ELSE rb
          /\ UNCHANGED own

Called(t) == t \in DOMAIN pend
Call(t, o) == /\ pend' = [u \in DOMAIN pend \cup {t} |-> IF u = t THEN [o |-> o, lin |-> FALSE, v |-> <<>>] ELSE pend[u]]
              /\ UNCHANGED <<rb, own>>
Lin(t) == /\ Called(t) /\ ~pend[t].lin
          /\ Effect(t, pend[t].o)
          /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].v = Value(pend[t].o)]
Return(t) == /\ pend' = [u \in DOMAIN pend \ {t} |-> pend[u]]
             /\ UNCHANGED <<rb, own>>
===============================================================================
