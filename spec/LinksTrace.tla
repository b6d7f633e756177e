----------------------------- MODULE LinksTrace -----------------------------
(* Validation of histories of linked coordinates on moving robots.             *)
EXTENDS RobotsTrace, Links

robots_ == <<rob, cfg, setsX>>
LinkOps == {"lnew", "lcopy", "lset", "lchg", "lin", "ltr"}
(* frames given by name are looked up in the robot of the coordinate *)
From(e) == IF e.how % 2 = 1 THEN lnk[e.k].r ELSE e.r

LinkStep(e) ==
  CASE e.op = "lnew" -> Chk("made", e.ok) /\ LMake(e.k, e.r)
    [] e.op = "lcopy" -> Chk("copied", e.ok) /\ LCopy(e.k, e.d)
    [] e.op = "lset" -> IF Usable(lnk[e.k], From(e), e.n) THEN Chk("set", e.ok) /\ LSet(e.k, e.n, Given(e.how, e.p))
                        ELSE Chk(<<"refused", e.k, e.n>>, ~e.ok) /\ UNCHANGED lnk
    [] e.op = "lchg" -> IF Usable(lnk[e.k], From(e), e.n) THEN Chk("changed", e.ok) /\ LChange(e.k, e.n)
                        ELSE Chk(<<"refused", e.k, e.n>>, ~e.ok) /\ UNCHANGED lnk
    [] e.op = "lin" -> /\ IF Linked(lnk[e.k]) /\ Usable(lnk[e.k], From(e), e.n)
                          THEN /\ Chk("answered", e.ok)
                               /\ Chk(<<"in frame", e.k, e.n, InFrame(lnk[e.k], e.n), e.res.p>>, Agrees(InFrame(lnk[e.k], e.n), e.res.p))
                               /\ Chk(<<"in frame", e.k, e.n, e.res.dev>>, e.res.dev = 0)
                          ELSE Chk(<<"refused", e.k, e.n>>, ~e.ok)
                       /\ UNCHANGED lnk
    [] e.op = "ltr" -> /\ IF e.r = e.t /\ {e.n, e.n2} \subseteq Nodes(rob[e.r])
                          THEN /\ Chk("answered", e.ok)
                               /\ Chk(<<"transformation", e.n, e.n2, e.res>>, Agrees(Between(rob[e.r], e.n, e.n2), e.res.p) /\ e.res.dev = 0)
                          ELSE Chk(<<"refused", e.n, e.n2>>, ~e.ok)
                       /\ UNCHANGED lnk
LinkOK(e) ==
  Has(e, "lk") => LET o == Fn(e.lk) IN
    /\ Eq("coordinates", DOMAIN lnk', DOMAIN o)
    /\ \A k \in DOMAIN lnk' :
         /\ Eq(<<"frame", k>>, lnk'[k].f, o[k].f)
         /\ Chk(<<"pose", k, lnk'[k].p, o[k].p>>, Agrees(lnk'[k].p, o[k].p))
         /\ Chk(<<"denoted pose", k, o[k].dev>>, o[k].dev = 0)
LInit == TInit /\ lnk = [x \in {} |-> 0]
LNext == /\ i <= Len(Log)
         /\ LET e == Log[i] IN
              /\ IF e.op \in LinkOps THEN LinkStep(e) /\ UNCHANGED robots_
                 ELSE /\ Step(e)
                      /\ lnk' = IF e.op = "reset" THEN [x \in {} |-> 0] ELSE lnk
              /\ Holds(LinkOK(e)) /\ Holds(StateOK(e))
         /\ i' = i + 1
=============================================================================
