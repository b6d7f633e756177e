------------------------------- MODULE MC_Conc --------------------------------
(* The locking protocol: writers assign joint values one by one and then       *)
(* update the pose of one node after the other, readers read node by node;     *)
(* every operation takes the recursive lock of its robot first and returns it  *)
(* last, explicit locks keep it longer.  TLC shows that this implements Conc   *)
(* (every value read is the one of the atomic specification, the poses of the  *)
(* nodes always fit when nobody writes) and that no schedule ends in a         *)
(* deadlock, also with operations that need two robots.                        *)
EXTENDS Conc, Json
CONSTANTS NT, Sim, MaxLevel
VARIABLES iq, ip, ig,    \* joint values, pose, node poses as they are in memory
          lk,            \* robot -> [t, d]
          pc, pos, got,  \* thread -> index of its operation, micro step, values read
          prg, hist
mvars == <<rb, pend, own, iq, ip, ig, lk, pc, pos, got, prg, hist>>
T == 1..NT
Rs == {"A", "B"}
ND == [a |-> [par |-> "-", typ |-> "fixed", ax |-> <<0,0,0>>, loc |-> IdPose, lo |-> 0, hi |-> 0, mass |-> 1, com |-> <<0,0,0>>],
       b |-> [par |-> "a", typ |-> "pris", ax |-> <<1,0,0>>, loc |-> Trans(<<0,0,5>>), lo |-> -3, hi |-> 3, mass |-> 1, com |-> <<0,0,0>>],
       c |-> [par |-> "b", typ |-> "rev", ax |-> <<0,0,1>>, loc |-> Trans(<<2,0,0>>), lo |-> -90, hi |-> 90, mass |-> 2, com |-> <<1,0,0>>]]
Order == <<"a", "b", "c">>
Op(r, o, n, ns, k, p) == [r |-> r, o |-> o, n |-> n, m |-> "-", ns |-> ns, k |-> k, p |-> p]
S(v, w) == Op("A", "vec", "-", <<"b", "c">>, <<v, w>>, IdPose)
Pz(v) == Op("A", "pose", "-", <<>>, <<>>, Trans(<<0, v, 0>>))
RdAll == Op("A", "getsetv", "S", <<"b", "c">>, <<>>, IdPose)
RdRoot == Op("A", "inroot", "c", <<>>, <<>>, IdPose)
RdC == Op("A", "gp", "c", <<>>, <<>>, IdPose)
RdB == Op("A", "gp", "b", <<>>, <<>>, IdPose)
L == Op("A", "rlock", "-", <<>>, <<>>, IdPose)
U == Op("A", "unlock", "-", <<>>, <<>>, IdPose)
X(r, q) == [Op(r, "axisof", "c", <<>>, <<>>, IdPose) EXCEPT !.m = q]
Move == Op("A", "fornode", "c", <<>>, <<>>, Trans(<<7, 0, 0>>))
Progs == {<<S(3, 90)>>, <<S(-3, 0), Pz(4)>>, <<Pz(1)>>, <<RdC, RdB>>, <<RdAll, RdRoot>>, <<L, RdB, RdC, U>>, <<L, S(1, -90), Pz(2), U>>, <<X("A", "B")>>, <<X("B", "A")>>, <<Move>>, <<RdAll>>}

(* micro steps between taking the lock and returning it *)
Micro(o) ==
  CASE o.o = "vec" -> [k \in 1..Len(o.ns) |-> <<"asg", o.ns[k], o.k[k]>>] \o [k \in 1..3 |-> <<"upd", Order[k], 0>>]
    [] o.o \in {"pose", "fornode"} -> <<<<"base", "-", 0>>>> \o [k \in 1..3 |-> <<"upd", Order[k], 0>>]
    [] o.o = "getsetv" -> [k \in 1..Len(o.ns) |-> <<"rdq", o.ns[k], 0>>]
    [] o.o = "inroot" -> <<<<"rdp", "a", 0>>, <<"rdp", "c", 0>>>>
    [] o.o = "gp" -> <<<<"rdp", o.n, 0>>>>
    [] OTHER -> <<>>
Cur(t) == prg[t][pc[t]]

MInit == /\ rb = [r \in Rs |-> [nd |-> ND, q |-> [b |-> 0, c |-> 0], p |-> IdPose, set |-> [S |-> <<"b", "c">>]]]
         /\ pend = <<>> /\ own = [r \in Rs |-> [t |-> 0, d |-> 0]]
         /\ iq = [r \in Rs |-> [b |-> 0, c |-> 0]] /\ ip = [r \in Rs |-> IdPose] /\ ig = [r \in Rs |-> [n \in DOMAIN ND |-> Fk(ND, [b |-> 0, c |-> 0], IdPose, n)]]
         /\ lk = [r \in Rs |-> [t |-> 0, d |-> 0]]
         /\ IF Sim THEN prg = <<>> ELSE prg \in [T -> Progs] /\ \A t \in 1..NT-1 : Len(prg[t]) <= Len(prg[t+1])
         /\ pc = [t \in T |-> 1] /\ pos = [t \in T |-> 0] /\ got = [t \in T |-> <<>>]
         /\ hist = <<>>

Note(t) == hist' = IF Sim THEN Append(hist, t) ELSE hist
Take(r, t) == lk[r].t \in {0, t} /\ lk' = [lk EXCEPT ![r] = [t |-> t, d |-> @.d + 1]]
Give(r) == lk' = [lk EXCEPT ![r] = IF @.d = 1 THEN [t |-> 0, d |-> 0] ELSE [@ EXCEPT !.d = @ - 1]]

Start(t) == /\ pos[t] = 0 /\ pc[t] <= Len(prg[t])
            /\ Call(t, Cur(t))
            /\ pos' = [pos EXCEPT ![t] = 1] /\ got' = [got EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<iq, ip, ig, lk, pc, prg>> /\ Note(t)
Acquire(t) == /\ pos[t] = 1 /\ Cur(t).o # "unlock" /\ Take(Cur(t).r, t)
              /\ pos' = [pos EXCEPT ![t] = 2]
              /\ IF Cur(t).o \in Locks THEN Lin(t) ELSE UNCHANGED cvars
              /\ UNCHANGED <<iq, ip, ig, pc, got, prg>> /\ Note(t)
(* the position of the robot for which node c is where it is asked for: read and written under one lock *)
Body(t) ==
  LET o == Cur(t)  r == o.r  ms == Micro(o) IN
  /\ pos[t] >= 2 /\ pos[t] - 1 <= Len(ms)
  /\ LET m == ms[pos[t] - 1] IN
     /\ iq' = IF m[1] = "asg" THEN [iq EXCEPT ![r][m[2]] = Clamp(ND[m[2]], m[3])] ELSE iq
     /\ ip' = IF m[1] = "base" THEN [ip EXCEPT ![r] = IF o.o = "pose" THEN o.p ELSE Mul(Mul(o.p, Inv(ig[r][o.n])), @)] ELSE ip
     /\ ig' = IF m[1] = "upd" THEN [ig EXCEPT ![r][m[2]] = Mul(IF ND[m[2]].par = "-" THEN ip[r] ELSE ig[r][ND[m[2]].par],
                                                             Mul(ND[m[2]].loc, Motion(ND[m[2]], IF m[2] \in DOMAIN iq[r] THEN iq[r][m[2]] ELSE 0)))] ELSE ig
     /\ got' = [got EXCEPT ![t] = CASE m[1] = "rdq" -> Append(@, iq[r][m[2]]) [] m[1] = "rdp" -> Append(@, ig[r][m[2]]) [] OTHER -> @]
  /\ pos' = [pos EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<lk, pc, prg, rb, pend, own>> /\ Note(t)
(* the last step: the lock goes back, the operation has taken effect *)
Release(t) ==
  LET o == Cur(t)  r == o.r IN
  /\ pos[t] >= 1
  /\ \/ o.o = "unlock" /\ pos[t] = 1
     \/ o.o \notin Locks /\ pos[t] = Len(Micro(o)) + 2
  /\ Give(r) /\ Lin(t)
  /\ pos' = [pos EXCEPT ![t] = IF o.o = "axisof" THEN 90 ELSE 99]
  /\ UNCHANGED <<iq, ip, ig, pc, got, prg>> /\ Note(t)
(* the second robot: asked only after the first lock was returned *)
Second(t) == /\ pos[t] \in {90, 91}
             /\ IF pos[t] = 90 THEN Take(Cur(t).m, t) ELSE Give(Cur(t).m)
             /\ pos' = [pos EXCEPT ![t] = IF @ = 90 THEN 91 ELSE 99]
             /\ UNCHANGED <<iq, ip, ig, pc, got, prg, rb, pend, own>> /\ Note(t)
Leave(t) == /\ \/ pos[t] = 99
               \/ pos[t] = 2 /\ Cur(t).o \in {"rlock", "wlock"}
            /\ Return(t)
            /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ pos' = [pos EXCEPT ![t] = 0]
            /\ UNCHANGED <<iq, ip, ig, lk, got, prg>> /\ Note(t)
AllDone == prg # <<>> /\ \A t \in T : pc[t] > Len(prg[t])
Choose == prg = <<>> /\ prg' = RandomElement([T -> Progs]) /\ UNCHANGED <<rb, pend, own, iq, ip, ig, lk, pc, pos, got, hist>>
MNext == \/ Choose
         \/ \E t \in DOMAIN prg : Start(t) \/ Acquire(t) \/ Body(t) \/ Release(t) \/ Second(t) \/ Leave(t)
         \/ AllDone /\ ~Sim /\ UNCHANGED mvars
View == <<rb, pend, own, iq, ip, ig, lk, pc, pos, got, prg>>

Writing(r) == \E t \in DOMAIN prg : pos[t] > 1 /\ pos[t] < 90 /\ pc[t] <= Len(prg[t]) /\ Cur(t).r = r /\ Cur(t).o \in {"vec", "pose", "fornode"}
(* when nobody writes, memory is what the specification says and the poses fit the joint values *)
InvMemory == \A r \in Rs : ~Writing(r) => iq[r] = rb[r].q /\ ip[r] = rb[r].p /\ \A n \in DOMAIN ND : ig[r][n] = Gp(r, n)
(* what was read is what the atomic specification returns *)
InvReads == \A t \in T : (pos[t] = 99 /\ Called(t)) =>
   CASE pend[t].o.o = "getsetv" -> got[t] = pend[t].v
     [] pend[t].o.o = "gp" -> got[t][1] = pend[t].v
     [] pend[t].o.o = "inroot" -> Mul(Inv(got[t][1]), got[t][2]) = pend[t].v
     [] OTHER -> TRUE
(* one writer or reader at a time *)
InvMutex == \A r \in Rs : (lk[r].t = 0) = (lk[r].d = 0)
InvOwn == \A r \in Rs : own[r].t # 0 => lk[r].t = own[r].t
InvEnd == AllDone => \A r \in Rs : lk[r].d = 0 /\ own[r].d = 0
Emit == ~(Sim /\ AllDone) \/ PrintT("BEHAVIOUR " \o ToJson(<<prg, hist, 0>>))
===============================================================================
