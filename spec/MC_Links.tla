------------------------------ MODULE MC_Links ------------------------------
(* Linked coordinates on the robot of MC_Robots and a copy of it.              *)
EXTENDS MC_Robots, Links
lmvars == <<rob, cfg, setsX, hist, i, lnk>>
Ks == {"x", "y"}
Ns == {"base", "j1", "j3", "nope"}
Note(e) == hist' = Append(hist, e) /\ i' = i + 1 /\ UNCHANGED <<rob, cfg, setsX>>
Frame_(k, id, n, h) == IF h % 2 = 1 THEN Usable(lnk[k], lnk[k].r, n) ELSE Usable(lnk[k], id, n)
LinkOps_ ==
  \/ \E k \in Ks, id \in DOMAIN rob : LMake(k, id) /\ Note([op |-> "lnew", k |-> k, r |-> id])
  \/ \E k \in DOMAIN lnk : \E d \in Ks \ {k} : LCopy(k, d) /\ Note([op |-> "lcopy", k |-> k, d |-> d, how |-> 0])
  \/ \E k \in DOMAIN lnk, id \in DOMAIN rob, n \in Ns, h \in 0..3, p \in Poses :
       /\ IF Frame_(k, id, n, h) THEN LSet(k, n, Given(h, p)) ELSE UNCHANGED lnk
       /\ Note([op |-> "lset", k |-> k, r |-> id, n |-> n, how |-> h, p |-> p])
  \/ \E k \in DOMAIN lnk, id \in DOMAIN rob, n \in Ns, h \in 0..1 :
       /\ IF Frame_(k, id, n, h) THEN LChange(k, n) ELSE UNCHANGED lnk
       /\ Note([op |-> "lchg", k |-> k, r |-> id, n |-> n, how |-> h])
  \/ \E k \in DOMAIN lnk, n \in Ns : UNCHANGED lnk /\ Note([op |-> "lin", k |-> k, r |-> lnk[k].r, n |-> n, how |-> 1])
Moves_(id) == \/ \E v \in {-90, 0, 90} : \E o \in {"q", "qnou"} : Do([op |-> o, r |-> id, n |-> "j1", v |-> v, ok |-> TRUE])
              \/ \E v \in {0, 180} : Do([op |-> "q", r |-> id, n |-> "j3", v |-> v, ok |-> TRUE])
              \/ \E p \in {P1, P2} : Do([op |-> "pose", r |-> id, p |-> p])
              \/ Do([op |-> "apply", r |-> id])
LMInit == MInit /\ lnk = [x \in {} |-> 0]
LMNext == IF i = 1 THEN Do([op |-> "clone", r |-> "A", t |-> "B", sc |-> 1000]) /\ UNCHANGED lnk
          ELSE LinkOps_ \/ \E id \in DOMAIN rob : Moves_(id) /\ UNCHANGED lnk
LView == <<rob, lnk, i = 1>>
----------------------------------------------------------------------------
(* properties of the specification *)
FramesIn == \A k \in DOMAIN lnk : lnk[k].r \in DOMAIN rob /\ (Linked(lnk[k]) => lnk[k].f \in Nodes(rob[lnk[k].r]))
RoundTrip == \A k \in DOMAIN lnk : LET l == lnk[k] IN Linked(l) =>
               /\ InFrame(l, l.f) = l.p
               /\ \A n \in Nodes(rob[l.r]) : Mul(rob[l.r].gp[n], InFrame(l, n)) = Denotes(l)
Now(k) == Denotes(lnk[k])
Then(k) == LET l == lnk'[k] IN IF l.f = "" THEN Unknown ELSE Mul(rob'[l.r].gp[l.f], l.p)
(* re-expressing never moves; what was set is denoted; other coordinates are left alone *)
Stays == [][\A k \in DOMAIN lnk :
             /\ Ev.op = "lchg" /\ Linked(lnk[k]) => Then(k) = Now(k)
             /\ Ev.op = "lin" => lnk'[k] = lnk[k]
             /\ Ev.op \in {"lset", "lchg"} /\ Ev.k # k => lnk'[k] = lnk[k] /\ Then(k) = Now(k)
             /\ Ev.op \in {"q", "qnou", "pose", "apply"} => lnk'[k] = lnk[k] /\ (Ev.r # lnk[k].r => Then(k) = Now(k))
             /\ Ev.op = "qnou" => Then(k) = Now(k)]_lmvars
LEmit == Len(hist) < 2 + MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
