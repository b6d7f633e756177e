------------------------------ MODULE ConcTrace -------------------------------
(* Histories of calls and returns recorded under a controlled scheduler: there *)
(* have to be moments between call and return at which the operations could    *)
(* have taken effect, one after the other, with the values that were returned. *)
EXTENDS Conc, Common
VARIABLES prog,  \* thread -> its operations
          j      \* history entries of the current round that are accounted for
tvars == <<i, rb, pend, own, prog, j>>

E == Log[i]
H == E.res.h
TInit == i = 1 /\ rb = <<>> /\ pend = <<>> /\ own = <<>> /\ prog = <<>> /\ j = 0

Fresh == [t |-> 0, d |-> 0]
Advance == i' = i + 1 /\ TLCSet(42, i + 1) /\ TLCSet(43, 0)
Define ==
  LET e == E IN
  /\ e.op # "go"
  /\ Advance /\ j' = 0
  /\ Chk("an operation of the script failed", e.ok)
  /\ CASE e.op = "reset" -> rb' = <<>> /\ own' = <<>> /\ pend' = <<>> /\ prog' = <<>>
       [] e.op = "robot" -> rb' = With(rb, e.r, [nd |-> <<>>, q |-> <<>>, p |-> IdPose, set |-> <<>>]) /\ own' = With(own, e.r, Fresh) /\ UNCHANGED <<pend, prog>>
       [] e.op = "node" -> /\ rb' = [rb EXCEPT ![e.r].nd = With(@, e.n, [par |-> e.par, typ |-> e.typ, ax |-> e.ax, loc |-> e.loc, lo |-> e.lo, hi |-> e.hi, mass |-> e.mass, com |-> e.com]),
                                              ![e.r].q = IF e.typ = "fixed" THEN @ ELSE With(@, e.n, 0)]
                           /\ UNCHANGED <<pend, prog, own>>
       [] e.op = "build" -> Chk("the robot is complete", e.res) /\ UNCHANGED <<rb, pend, own, prog>>
       [] e.op = "set" -> rb' = [rb EXCEPT ![e.r].set = With(@, e.s, e.ns)] /\ UNCHANGED <<pend, own, prog>>
       [] e.op = "p" -> prog' = With(prog, e.t, Append(IF e.t \in DOMAIN prog THEN prog[e.t] ELSE <<>>, [r |-> e.r, o |-> e.o, n |-> e.n, m |-> e.m, ns |-> e.ns, k |-> e.k, p |-> e.p]))
                        /\ UNCHANGED <<rb, pend, own>>

Reached(k) == IF TLCGet(43) < k THEN TLCSet(43, k) ELSE TRUE
RetOf(t) == H[CHOOSE k \in j+1..Len(H) : H[k].t = t /\ H[k].k = 1].v
Calls == /\ E.op = "go" /\ E.ok /\ j < Len(H) /\ H[j+1].k = 0
         /\ Call(H[j+1].t, prog[H[j+1].t][H[j+1].c])
         /\ j' = j + 1 /\ Reached(j + 1)
         /\ UNCHANGED <<i, prog>>
Returns == /\ E.op = "go" /\ E.ok /\ j < Len(H) /\ H[j+1].k = 1
           /\ pend[H[j+1].t].lin
           /\ Return(H[j+1].t)
           /\ j' = j + 1 /\ Reached(j + 1)
           /\ UNCHANGED <<i, prog>>
(* effects happen no earlier than necessary: directly before a return *)
Effects == /\ E.op = "go" /\ E.ok /\ j < Len(H) /\ H[j+1].k = 1 /\ ~pend[H[j+1].t].lin
           /\ \E t \in DOMAIN pend :
                /\ ~pend[t].lin
                /\ Value(pend[t].o) = RetOf(t)
                /\ Lin(t)
           /\ UNCHANGED <<i, j, prog>>
(* all have ended: the robots are in the state the model is in *)
Ends == /\ E.op = "go" /\ E.ok /\ j = Len(H)
        /\ pend = <<>>
        /\ \A r \in DOMAIN rb :
             /\ Chk(<<"the lock was released", r>>, own[r].t = 0)
             /\ Eq(<<"joint values", r>>, rb[r].q, Fn(E.res.end[r].q))
             /\ Eq(<<"pose", r>>, rb[r].p, E.res.end[r].p)
             /\ Eq(<<"poses of the nodes", r>>, [n \in DOMAIN rb[r].nd |-> Gp(r, n)], Fn(E.res.end[r].g))
        /\ Advance /\ j' = 0 /\ prog' = <<>>
        /\ UNCHANGED <<rb, pend, own>>

TNext == i <= Len(Log) /\ (Define \/ Calls \/ Returns \/ Effects \/ Ends)
ASSUME TLCSet(42, 1) /\ TLCSet(43, 0)
(* a thread that holds a lock is the only one whose operations take effect *)
InvLock == \A r \in DOMAIN own : (own[r].t = 0) = (own[r].d = 0)
Finished == IF TLCGet(42) >= Len(Log) + 1 THEN TRUE
            ELSE /\ PrintT(<<"MISMATCH", TLCGet(42), "no order of the operations explains the history; explained up to entry", TLCGet(43)>>)
                 /\ PrintT(<<"REJECTED", TLCGet(42)>>) /\ FALSE
===============================================================================
