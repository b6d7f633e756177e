----------------------------- MODULE SabaTrace ------------------------------
(* Validation of motion planning of the real library: configuration spaces,    *)
(* search trees (C10), planners (C11), paths (C12), path processing (C13).      *)
EXTENDS CTree, Threads, Common

Is3(what, v, r) == Chk(<<what, v, r>>, v = "either" \/ (v = "yes") = r)
KeepP == UNCHANGED pvars
KeepT == UNCHANGED <<env, sp, tr, lo>>
All_ == KeepT /\ UNCHANGED pa /\ KeepP
Near_(what, a, b, t) == Chk(<<what, "expected", a, "got", b>>, AbsI(a - b) <= t)
Group(n, l, d) == [k \in 1..n |-> SubSeq(l, (k-1) * d + 1, k * d)]
Nd == Len(env.ax)
S0 == [kind |-> "plain", lo |-> <<>>, hi |-> <<>>, w |-> <<>>, use |-> FALSE, samp |-> 1, dcd |-> 1, cap |-> 0, used |-> {}, con |-> <<>>]
NewSpace(k, cap) == [kind |-> k, lo |-> [d \in Dims |-> IF Ang(d) THEN -1800 ELSE env.lim[d][1]], hi |-> [d \in Dims |-> IF Ang(d) THEN 1800 ELSE env.lim[d][2]],
                     w |-> [d \in Dims |-> 1], use |-> FALSE, samp |-> 1, dcd |-> 1, cap |-> cap, used |-> {}, con |-> <<>>]
Bound_(s, d, a, b) == [sp EXCEPT ![s].lo[d] = MinI(a, b), ![s].hi[d] = MaxI(a, b)]
KthId(t, k) == tr[t].ns[(k % Len(tr[t].ns)) + 1].id
(* the nodes the trace shows after this operation that the tree did not have *)
StNs(e, t) == [k \in 1..Len(e.st[t]) |-> [id |-> e.st[t][k][1], par |-> e.st[t][k][2], q |-> e.st[t][k][3]]]
NewIds(e, t) == LET ns == StNs(e, t)  n == Len(tr[t].ns) IN [k \in 1..MaxI(0, Len(ns) - n) |-> ns[n + k].id]
NewQs(e, t) == LET ns == StNs(e, t)  n == Len(tr[t].ns) IN [k \in 1..MaxI(0, Len(ns) - n) |-> ns[n + k].q]
Links(e, t) == LET x == e.st[t] IN { <<x[k][1], x[k][4][j]>> : <<k, j>> \in { <<k, j>> \in (1..Len(x)) \X (1..60) : j <= Len(x[k][4]) } }
NrLinks(e, t) == SumF([k \in 1..Len(e.st[t]) |-> Len(e.st[t][k][4])], 1..Len(e.st[t]))
(* what the trace shows of the trees is what is specified *)
Trees(e) == Has(e, "st") =>
   \A t \in DOMAIN tr' : /\ Eq(<<"nodes of tree", t>>, tr'[t].ns, StNs(e, t))
                         /\ Eq(<<"links to children in tree", t>>, tr'[t].kid, Links(e, t))
                         /\ Eq(<<"number of links in tree", t>>, Cardinality(tr'[t].kid), NrLinks(e, t))
(* appends the nodes shown, which have to be fresh; the pool may be exhausted before all fit *)
Grown(e, t, par) ==
  LET ids == NewIds(e, t) IN
  /\ Chk(<<"new nodes are not in use", ids>>, \A k \in 1..Len(ids) : Fresh(tr[t].s, ids[k]))
  /\ Chk(<<"new nodes differ", ids>>, \A j, k \in 1..Len(ids) : j # k => ids[j] # ids[k])
  /\ Append_(t, par, ids, NewQs(e, t))
Exhausted(e, t) == ~e.ok /\ Len(NewIds(e, t)) = Room(tr[t].s)

SpaceStep(e) ==
  CASE e.op = "env" -> /\ Chk("environment", e.ok)
                       /\ env' = [ax |-> e.ax, hb |-> e.hb, p0 |-> e.p0, lim |-> e.lim, obs |-> [k \in 1..Len(e.obstacles) \div 6 |-> LET o == 6*(k-1) IN
                              [c |-> <<e.obstacles[o+1], e.obstacles[o+2], e.obstacles[o+3]>>, h |-> <<e.obstacles[o+4], e.obstacles[o+5], e.obstacles[o+6]>>]]]
                       /\ UNCHANGED sp
    [] e.op = "space" -> Eq("dimension", Nd, e.res) /\ sp' = With(sp, e.s, NewSpace(e.k, e.cap)) /\ UNCHANGED env
    [] e.op = "sclone" -> /\ Eq("cloned with the robot's own nodes", sp[e.s].kind = "sampled", e.res)
                          /\ sp' = (IF sp[e.s].kind = "sampled" THEN With(sp, e.t, [sp[e.s] EXCEPT !.used = {}, !.con = <<>>, !.w = IF sp[e.s].use THEN @ ELSE [d \in Dims |-> 1]]) ELSE sp)
                          /\ UNCHANGED env
    [] e.op = "sbound" -> sp' = Bound_(e.s, e.d + 1, e.a, e.b) /\ UNCHANGED env
    [] e.op = "sbounds" -> sp' = [sp EXCEPT ![e.s].lo = [d \in Dims |-> MinI(e.a[d], e.b[d])], ![e.s].hi = [d \in Dims |-> MaxI(e.a[d], e.b[d])]] /\ UNCHANGED env
    [] e.op = "qbounds" -> Eq("boundaries", [d \in Dims |-> <<sp[e.s].lo[d], sp[e.s].hi[d], sp[e.s].hi[d] - sp[e.s].lo[d], Ang(d)>>], e.res) /\ UNCHANGED <<env, sp>>
    [] e.op = "sweights" -> sp' = [sp EXCEPT ![e.s].w = e.w, ![e.s].use = TRUE] /\ UNCHANGED env
    [] e.op = "suse" -> sp' = SetSp(e.s, "use", e.b) /\ UNCHANGED env
    [] e.op = "ssamp" -> Eq("sampling sizes", <<e.p, e.d>>, e.res) /\ sp' = [sp EXCEPT ![e.s].samp = e.p, ![e.s].dcd = e.d] /\ UNCHANGED env
    [] e.op = "scons" -> sp' = [sp EXCEPT ![e.s].con = Append(@, [c |-> e.c, b |-> e.b])] /\ UNCHANGED env
    [] e.op = "qdist" -> Near_("distance", Dist(e.s, e.a, e.b, ~e.off), e.res[1], 3 + e.res[1] \div 500) /\ Chk("squared distance", e.res[2]) /\ UNCHANGED <<env, sp>>
    [] e.op = "qin" -> Eq("in boundary", InBounds(e.s, e.c), e.res) /\ UNCHANGED <<env, sp>>
    [] e.op = "qresp" -> Eq("boundaries respected", Respect(e.s, e.c), e.res) /\ UNCHANGED <<env, sp>>
    [] e.op = "qvalid" -> /\ Is3("valid", All3((IF e.m % 2 = 1 THEN {IF InBounds(e.s, e.c) THEN "yes" ELSE "no"} ELSE {}) \cup (IF (e.m \div 2) % 2 = 1 THEN {Free(e.c, 0)} ELSE {}) \cup (IF e.m \div 4 = 1 THEN {Constr(e.s, e.c, 0)} ELSE {})), e.res)
                          /\ UNCHANGED <<env, sp>>
    [] e.op = "qfree" -> Is3("collision free", Free(e.c, 0), e.res) /\ UNCHANGED <<env, sp>>
    [] e.op = "qodist" -> Chk(<<"obstacle distance", e.res>>, Len(env.obs) = 0 \/ AbsI(e.res - ObsDist(e.c) \div 10) <= 2) /\ UNCHANGED <<env, sp>>
    [] e.op = "qint" -> /\ Chk(<<"interpolated", e.res>>, Opposite(e.a, e.b) \/ \A d \in Dims : AbsI(Delta(d, At(e.a, e.b, e.k, 100)[d], e.res[d])) <= 2)
                        /\ UNCHANGED <<env, sp>>
    [] e.op = "qpath" -> Chk(<<"path", e.res>>, PathOf(e.s, e.a, e.b, e.res)) /\ UNCHANGED <<env, sp>>
    [] e.op = "quntil" -> Chk(<<"path until invalid", Way(e.s, e.a, e.b), e.res>>, UntilOf(e.s, e.a, e.b, e.res.p, e.res.all) /\ e.res.in) /\ UNCHANGED <<env, sp>>
    [] e.op = "qpv" -> Is3("path valid", IF sp[e.s].kind = "plain" THEN Valid(e.s, e.b, 0) ELSE Segment(e.s, e.a, e.b), e.res) /\ UNCHANGED <<env, sp>>
    [] e.op = "qrand" -> /\ Chk(<<"random configurations", e.res>>, Len(e.res) = e.n /\ \A k \in 1..Len(e.res) :
                                   InBoundsT(e.s, e.res[k], 1) # "no" /\ (e.b => ValidIn(e.s, e.res[k], 2) # "no"))
                         /\ UNCHANGED <<env, sp>>
    [] e.op = "watch" -> UNCHANGED <<env, sp>>
SpaceOps == {"env", "space", "sclone", "sbound", "sbounds", "qbounds", "sweights", "suse", "ssamp", "scons", "qdist", "qin", "qresp", "qvalid", "qfree", "qodist", "qint", "qpath", "quntil", "qpv", "qrand", "watch"}

TreeStep(e) ==
  CASE e.op \in {"tpath", "tpathl", "tuntil", "trem", "tsol", "tnn"} /\ Len(tr[e.t].ns) = 0 -> Eq("nothing to do", "empty", e.res) /\ KeepT
    [] e.op = "nnew" -> IF Room(e.s) = 0 THEN Chk("refused: no free node", ~e.ok) /\ KeepT
                        ELSE /\ Chk("node", e.ok /\ e.res[2]) /\ Chk(<<"not in use before", e.res>>, Fresh(e.s, e.res[1]))
                             /\ NewNode(e.s, e.k, e.res[1])
    [] e.op = "nrel" -> IF e.k \in DOMAIN lo THEN Release(e.s, e.k) ELSE Eq("nothing to do", "none", e.res) /\ KeepT
    [] e.op = "tnew" -> NewTree(e.s, e.t, e.u)
    [] e.op = "tupd" -> Eq("links children", e.u, e.res) /\ Link(e.t, e.u)
    [] e.op = "tapp" -> IF Room(tr[e.t].s) = 0 THEN Chk("refused: no free node", ~e.ok) /\ KeepT
                        ELSE /\ Chk("appended", e.ok /\ e.res[2] /\ NewIds(e, e.t) = <<e.res[1]>>)
                             /\ Eq("configuration", <<e.c>>, NewQs(e, e.t))
                             /\ Chk(<<"obstacle distance", e.res>>, IF e.d THEN Len(env.obs) = 0 \/ AbsI(e.res[3] - ObsDist(e.c) \div 10) <= 2 ELSE e.res[3] = -1)
                             /\ Grown(e, e.t, IF e.k < 0 \/ Len(tr[e.t].ns) = 0 THEN -1 ELSE KthId(e.t, e.k))
    [] e.op \in {"tpath", "tpathl", "tuntil"} ->
          LET par == KthId(e.t, e.k)  a == NodeOf(e.t, par).q  qs == NewQs(e, e.t)  ids == NewIds(e, e.t)  s == tr[e.t].s
          IN /\ IF Exhausted(e, e.t) THEN TRUE ELSE
                   /\ Chk("appended", e.ok)
                   /\ IF e.op = "tpath" THEN Chk(<<"path appended", qs>>, PathOf(s, a, e.c, <<a>> \o qs)) /\ Eq("appended something", Len(qs) > 0, e.res[1])
                      ELSE IF e.op = "tpathl" THEN Eq("path appended", Group(e.n, e.l, Nd), qs) /\ Chk("appended", e.res[1])
                      ELSE Chk(<<"path appended until invalid", Way(s, a, e.c), qs, e.res>>, UntilOf(s, a, e.c, <<a>> \o qs, e.res[1] \/ (Len(qs) = 0 /\ Same(a, e.c, 0))))
                   /\ Len(qs) > 0 \/ e.op = "tpathl" => Eq("last node", IF Len(ids) = 0 THEN par ELSE ids[Len(ids)], e.res[2])
             /\ Grown(e, e.t, par)
    [] e.op = "trem" -> LET id == KthId(e.t, e.k) IN Eq("removed", IsLeaf(e.t, id), e.res) /\ IF IsLeaf(e.t, id) THEN RemoveLeaf(e.t, id) ELSE KeepT
    [] e.op = "tnn" -> /\ IF Len(tr[e.t].ns) = 0 THEN TRUE
                          ELSE LET N == Near(e.t, e.c)  m == MinSet({ N[k] : k \in 1..Len(N) })
                               IN Chk(<<"nearest neighbour", e.res, "distances", N>>, e.res[3] /\ e.res[1] \in Ids(e.t) /\ N[IdxOf(e.t, e.res[1])] <= m + 25 + m \div 500 /\ AbsI(e.res[2] - N[IdxOf(e.t, e.res[1])]) <= 15 + m \div 500)
                       /\ KeepT
    [] e.op = "tsol" -> LET a == KthId(e.t, e.k)  b == KthId(e.t, e.l)
                        IN Eq("path in the tree", IF Above(e.t, a, b) THEN [r |-> TRUE, p |-> [j \in 1..Len(Down(e.t, a, b)) |-> NodeOf(e.t, Down(e.t, a, b)[j]).q]] ELSE [r |-> FALSE, p |-> <<>>], e.res) /\ KeepT
    [] e.op = "tlen" -> LET n == Len(tr[e.t].ns)  L == TreeLen_(e.t, n, e.w) IN Near_("length of the tree", L, e.res, 5 + 20 * MaxW(tr[e.t].s) * n + L \div 300) /\ KeepT
    [] e.op = "treset" -> ResetTree(e.t)
    [] e.op = "sreset" -> ResetSpace(e.s)
    [] e.op = "tsave" -> LET ns == tr[e.t].ns
                         IN /\ Chk(<<"stored nodes", e.res>>, e.res.r /\ e.res.set = "joints" /\ e.res.dim = Nd /\ e.res.n = Len(ns) /\ Len(e.res.ns) = Len(ns)
                                  /\ \A k \in 1..Len(ns) : e.res.ns[k][1] = ns[k].id /\ e.res.ns[k][2] = ns[k].par /\ \A d \in Dims : AbsI(e.res.ns[k][3][d] - ns[k].q[d]) <= 1)
                            /\ KeepT
    [] e.op = "tcheck" -> LET n == tr[e.t].ns  s == tr[e.t].s
                          IN /\ IF sp[s].kind = "plain" THEN TRUE
                                ELSE Is3("all edges of the tree valid", All3({ Segment(s, n[k].q, NodeOf(e.t, n[k].par).q) : k \in { k \in 1..Len(n) : n[k].par # -1 } }), e.res)
                             /\ KeepT
TreeOps == {"nnew", "nrel", "tnew", "tupd", "tapp", "tpath", "tpathl", "tuntil", "trem", "tnn", "tsol", "tlen", "treset", "sreset", "tsave", "tcheck"}

PathStep(e) ==
  LET P == IF e.op = "pnew" THEN <<>> ELSE pa[e.p].p  N == Len(P) IN
  CASE e.op = "pnew" -> Eq("dimension", Nd, e.res) /\ New_(e.p, e.k, IF e.k = "traj" THEN "" ELSE e.s)
    [] e.op = "padd" -> Add(e.p, e.c)
    [] e.op = "pins" -> Insert(e.p, e.k, <<e.c>>)
    [] e.op = "pinsl" -> Eq("given", e.n, e.res) /\ Insert(e.p, e.k, Group(e.n, e.l, Nd))
    [] e.op = "pinst" -> Insert(e.p, e.k, pa[e.q].p)
    [] e.op = "perase" -> Erase(e.p, e.k)
    [] e.op = "prem" -> Eq("number of removed points", Removed(e.p, e.k, e.l), e.res) /\ Remove_(e.p, e.k, e.l)
    [] e.op = "prev" -> Reverse_(e.p)
    [] e.op = "preset" -> Reset_(e.p)
    [] e.op = "pset" -> Eq("position exists", e.k < N, e.ok) /\ Replace_(e.p, e.k, e.c)
    [] e.op = "pclone" -> Eq("cloned", <<TRUE, TRUE, TRUE>>, e.res) /\ Clone_(e.p, e.q)
    [] e.op = "psub" -> Eq("sub path", SubOK(e.p, e.k, e.l), e.res) /\ Sub(e.p, e.k, e.l, e.q)
    [] e.op = "pcont" -> Eq("points", [n |-> N, p |-> P, same |-> TRUE], e.res) /\ UNCHANGED pa
    [] e.op = "pget" -> Eq("point", IF N = 0 THEN [d \in Dims |-> 0] ELSE P[MinI(e.k + 1, N)], e.res) /\ UNCHANGED pa
    [] e.op = "pgets" -> Eq("points", IF e.k > e.l \/ e.l >= N THEN [r |-> FALSE, p |-> <<>>] ELSE [r |-> TRUE, p |-> SubSeq(P, e.k + 1, e.l + 1)], e.res) /\ UNCHANGED pa
    [] e.op = "plen" -> Near_("length", LenOf(e.p, TRUE), e.res, LenSlack(e.p, LenOf(e.p, TRUE))) /\ UNCHANGED pa
    [] e.op = "plenw" -> Near_("length", LenOf(e.p, e.w), e.res, LenSlack(e.p, LenOf(e.p, e.w))) /\ UNCHANGED pa
    [] e.op = "plenr" -> LET x == IF e.l < e.k \/ e.l >= N THEN 0 ELSE LenTo(e.p, e.k + 1, e.l + 1, e.w) IN Near_("length of a part", x, e.res, LenSlack(e.p, x)) /\ UNCHANGED pa
    [] e.op = "ptime" -> IF LenOf(e.p, TRUE) < 1000 THEN UNCHANGED pa ELSE Near_("time", TimeOf(e.p, e.k), e.res \div 10, 4 + (40 * N * 100) \div (LenOf(e.p, TRUE) \div 10)) /\ UNCHANGED pa
    [] e.op = "pint" -> Chk(<<"interpolated", P, e.t, e.res>>, InterpOK(e.p, e.t \div 10, e.res[1], e.res[2]) /\ e.res[3]) /\ UNCHANGED pa
    [] e.op = "pws" -> /\ Chk(<<"poses along the path", e.res>>, e.res.kept /\ Len(e.res.p) = N /\ \A k \in 1..N : \A d \in 1..3 : AbsI(e.res.p[k][d] - Tool(P[k])[d]) <= 2)
                       /\ UNCHANGED pa
    [] e.op = "pcheck" -> IF sp[pa[e.p].s].kind = "plain" \/ N = 0 THEN UNCHANGED pa ELSE Is3("solution valid", Checked(e.p), e.res) /\ UNCHANGED pa
PathOps == {"pnew", "padd", "pins", "pinsl", "pinst", "perase", "prem", "prev", "preset", "pset", "pclone", "psub", "pcont", "pget", "pgets", "plen", "plenw", "plenr", "ptime", "pint", "pws", "pcheck"}

PReset == pl' = [x \in {} |-> 0] /\ px' = [x \in {} |-> 0] /\ wa' = [m |-> "", at |-> 0]
PInit == pl = [x \in {} |-> 0] /\ px = [x \in {} |-> 0] /\ wa = [m |-> "", at |-> 0]
Stored(q, s, has, p) == PutP(q, [k |-> "cspace", s |-> s, p |-> IF has THEN p ELSE <<>>])
(* a processing result of kind k *)
Result(x, p) == IF px[x].k = "short" THEN ShortcutOK(px[x].s, px[x].in, p) ELSE ProcessedOK(px[x].s, px[x].in, p)
PlanStep(e) ==
  CASE e.op = "mnew" -> NewPlanner(e.m, e.k, e.s, e.ma, e.mb, e.p, e.step, e.maxc) /\ UNCHANGED <<px, wa, pa>>
    [] e.op = "mstart" -> Is3("start accepted", Acceptable(e.m, e.c), e.res[1]) /\ Chk("start stored", e.res[2]) /\ SetStart(e.m, e.c, e.res[1]) /\ UNCHANGED <<px, wa, pa>>
    [] e.op = "mgoal" -> Is3("goal accepted", Acceptable(e.m, e.c), e.res[1]) /\ Chk("goal stored", e.res[2]) /\ SetGoal(e.m, e.c, e.res[1]) /\ UNCHANGED <<px, wa, pa>>
    [] e.op = "minit" -> Eq("initialized", Ready(e.m), e.res) /\ KeepP /\ UNCHANGED pa
    [] e.op = "mreset" -> ResetPlanner(e.m) /\ UNCHANGED <<px, wa, pa>>
    [] e.op = "mtimeout" -> pl' = [pl EXCEPT ![e.m].to = e.ms < 100000] /\ UNCHANGED <<px, wa, pa>>
    [] e.op = "warm" -> wa' = [m |-> e.m, at |-> e.at] /\ UNCHANGED <<pl, px, pa>>
    [] e.op = "mplan" -> LET R == e.res  S == R.sol
                         IN /\ Chk("visualization status restored", R.vis) /\ Chk("planning time", R.time) /\ Chk("no exception", ~R.thrown)
                            /\ Chk(<<"only when initialized">>, Ready(e.m) \/ ~R.r)
                            /\ Eq("solution exists", R.r, S.has) /\ Chk("solution is in the planner's space", S.cs)
                            /\ R.r => Chk(<<"solution", S.p>>, SolutionOK(e.m, S.p))
                            /\ Chk("succeeds when nothing is in the way", Ready(e.m) /\ wa.m # e.m /\ MustSucceed(e.m) => R.r)
                            /\ Chk(<<"cycles", R.cyc>>, Ready(e.m) => R.cyc <= pl[e.m].maxc /\ (R.r \/ pl[e.m].to \/ wa.m = e.m \/ R.cyc = pl[e.m].maxc))
                            /\ Chk(<<"stopped", R.cyc>>, Ready(e.m) /\ ~R.r /\ wa.m = e.m /\ wa.at > 0 /\ R.fired => R.cyc < pl[e.m].maxc \/ pl[e.m].maxc < 20000)
                            /\ Planned(e.m, R.r, S.p) /\ Stored(e.q, pl[e.m].s, S.has, S.p) /\ UNCHANGED <<px, wa>>
    [] e.op = "msol" -> /\ Eq("solution", [has |-> Len(pl[e.m].sol) > 0, p |-> pl[e.m].sol, cs |-> TRUE], e.res)
                        /\ Stored(e.q, pl[e.m].s, e.res.has, e.res.p) /\ KeepP
    [] e.op = "mtree" -> /\ \A j \in 1..Len(e.res) : LET t == e.res[j]  root == IF j = 1 THEN [ok |-> pl[e.m].sok, c |-> pl[e.m].start] ELSE [ok |-> pl[e.m].gok, c |-> pl[e.m].goal]
                               IN root.ok => Chk(<<"tree of the planner", j, t>>,
                                  /\ Len(t) >= 1 /\ t[1][2] = -1 /\ t[1][3] = root.c
                                  /\ \A k \in 2..Len(t) : \E l \in 1..k-1 : t[l][1] = t[k][2] /\ SoundWay(pl[e.m].s, t[l][3], t[k][3]))
                         /\ KeepP /\ UNCHANGED pa
    [] e.op = "xnew" -> NewProc(e.x, e.k, e.p) /\ UNCHANGED <<pl, wa, pa>>
    [] e.op = "xopt" -> /\ Chk("visualization status restored", e.res.vis) /\ Chk("the result is offered", e.res.same /\ e.res.has)
                        /\ Chk(<<"processed", px[e.x].in, e.res.p>>, Result(e.x, e.res.p))
                        /\ SetOpt(e.x, TRUE, e.res.p) /\ Stored(e.q, px[e.x].s, TRUE, e.res.p) /\ UNCHANGED <<pl, wa>>
    [] e.op = "xlimit" -> /\ Chk("result", e.res.has) /\ Chk(<<"shortened", px[e.x].in, e.res.p>>, Result(e.x, e.res.p))
                          /\ SetOpt(e.x, TRUE, e.res.p) /\ UNCHANGED <<pl, wa, pa>>
    [] e.op = "xprune" -> /\ Chk("result", e.res.has) /\ Chk(<<"pruned", px[e.x].in, e.res.p>>, PrunedOK(px[e.x].s, px[e.x].in, e.res.p))
                          /\ SetOpt(e.x, TRUE, e.res.p) /\ UNCHANGED <<pl, wa, pa>>
    [] e.op = "xcut" -> LET p == Current(e.x)  ok == e.k >= 0 /\ e.l >= 0 /\ e.k < Len(p) /\ e.l < Len(p)
                        IN /\ Chk("result", e.res.has)
                           /\ IF ok THEN Chk(<<"cut", p, e.res.p>>, CutOK(px[e.x].s, p, e.k, e.l, e.res.p)) ELSE Eq("nothing cut", <<p, 0>>, <<e.res.p, e.res.n>>)
                           /\ SetOpt(e.x, TRUE, e.res.p) /\ UNCHANGED <<pl, wa, pa>>
    [] e.op = "xok" -> /\ Is3("shortcut allowed", IF e.l < Len(Current(e.x)) THEN CutAllowed(px[e.x].s, Current(e.x), e.k, e.l) ELSE "no", e.res)
                       /\ SetOpt(e.x, TRUE, Current(e.x)) /\ UNCHANGED <<pl, wa, pa>>
    [] e.op = "xsel" -> LET n == Len(Current(e.x))
                        IN /\ Chk(<<"candidates", n, e.res>>, IF n <= 2 THEN ~e.res[1] ELSE e.res[1] /\ e.res[2] >= 0 /\ e.res[3] - e.res[2] >= 2 /\ e.res[3] <= n - 1 /\ e.res[3] - e.res[2] <= MaxI(2, e.d) + 1)
                           /\ SetOpt(e.x, TRUE, Current(e.x)) /\ UNCHANGED <<pl, wa, pa>>

IsPlanner(m) == m \in DOMAIN pl
NrRun(t, r) == IF r THEN 1 ELSE 0
ThreadStep(e) ==
  CASE e.op = "thnew" -> Eq("running", FALSE, e.res) /\ NewThread(e.t, e.m) /\ UNCHANGED <<pl, px, wa, pa>>
    [] e.op = "thstart" -> /\ IF th[e.t].run THEN Is3("still running", Flag(e.t), e.res[1]) ELSE Chk("running", e.res[1] \/ ~e.endless)
                           /\ Chk(<<"number of threads", e.res>>, e.endless \/ (th[e.t].run /\ ~th[e.t].open) => e.res[2] = 1) /\ Chk(<<"number of threads", e.res>>, e.res[2] <= 1)
                           /\ StartT(e.t, e.endless) /\ UNCHANGED <<pl, px, wa, pa>>
    [] e.op \in {"thstop", "thwait"} -> /\ Eq("not running and no thread left", <<FALSE, 0>>, e.res)
                           /\ (IF e.op = "thstop" THEN StopT(e.t) ELSE EndT(e.t)) /\ UNCHANGED <<pl, px, wa, pa>>
    [] e.op = "thint" -> AskT(e.t) /\ UNCHANGED <<pl, px, wa, pa>>
    [] e.op = "thrun" -> Is3("running", Flag(e.t), e.res) /\ UNCHANGED <<th, pl, px, wa, pa>>
    [] e.op = "thbusy" -> Chk("the run does something", ~th[e.t].run \/ th[e.t].open \/ e.res) /\ UNCHANGED <<th, pl, px, wa, pa>>
    [] e.op = "thrace" -> Eq("not running and no thread left", <<TRUE, 0>>, e.res) /\ th' = [th EXCEPT ![e.t].run = FALSE, ![e.t].open = FALSE, ![e.t].end = "either"] /\ UNCHANGED <<pl, px, wa, pa>>
    [] e.op = "thdel" -> Eq("no thread left", 0, e.res) /\ th' = [t \in DOMAIN th \ {e.t} |-> th[t]] /\ UNCHANGED <<pl, px, wa, pa>>
    [] e.op = "thres" ->
         LET R == e.res  T == th[e.t] IN
         /\ Is3("running", Flag(e.t), R.run)
         /\ IF IsPlanner(T.of)
            THEN IF R.run THEN UNCHANGED <<pl, px, wa, pa>> ELSE
                 /\ IF T.end = "none" THEN Eq("nothing planned", pl[T.of].sol, R.p)
                    ELSE /\ T.end = "stop" => Chk("no solution after a stop", ~R.has)
                         /\ R.has => Chk(<<"solution", R.p>>, Ready(T.of) /\ SolutionOK(T.of, R.p))
                         /\ Chk("solution found", T.end = "self" /\ e.sure => R.has)
                 /\ Planned(T.of, R.has, R.p) /\ Stored(e.q, pl[T.of].s, R.has, R.p) /\ UNCHANGED <<px, wa>>
            ELSE IF R.run \/ ~R.has THEN /\ Chk("a result is offered", R.run \/ T.end = "none") /\ Chk("no result yet", ~R.has) /\ UNCHANGED <<pl, px, wa, pa>>
                 ELSE /\ Chk("only after a run", T.end # "none") /\ Chk(<<"processed", px[T.of].in, R.p>>, Result(T.of, R.p))
                      /\ Stored(e.q, px[T.of].s, TRUE, R.p) /\ SetOpt(T.of, TRUE, R.p) /\ UNCHANGED <<pl, wa>>
         /\ (IF R.run THEN UNCHANGED th ELSE EndT(e.t))
ThreadOps == {"thnew", "thstart", "thstop", "thwait", "thint", "thrun", "thbusy", "thrace", "thdel", "thres"}

Void == [x \in {} |-> 0]
Step(e) ==
  CASE e.op = "reset" -> env' = [ax |-> <<>>, obs |-> <<>>] /\ sp' = Void /\ tr' = Void /\ lo' = Void /\ pa' = Void /\ PReset /\ th' = Void
    [] e.op \in SpaceOps -> SpaceStep(e) /\ UNCHANGED <<tr, lo, pa, th>> /\ KeepP
    [] e.op \in TreeOps -> TreeStep(e) /\ Trees(e) /\ UNCHANGED <<pa, th>> /\ KeepP
    [] e.op \in PathOps -> PathStep(e) /\ KeepT /\ KeepP /\ UNCHANGED th
    [] e.op \in ThreadOps -> ThreadStep(e) /\ KeepT
    [] OTHER -> PlanStep(e) /\ KeepT /\ UNCHANGED th

TInit == /\ i = 1 /\ env = [ax |-> <<>>, obs |-> <<>>] /\ sp = Void /\ tr = Void /\ lo = Void /\ pa = Void /\ PInit /\ th = Void
TNext == /\ i <= Len(Log)
         /\ Step(Log[i])
         /\ i' = i + 1
=============================================================================
