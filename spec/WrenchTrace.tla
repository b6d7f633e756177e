----------------------------- MODULE WrenchTrace -----------------------------
EXTENDS Wrench, Common

vars == <<wvars, i>>
Pt(l, k) == << l[3*k-2], l[3*k-1], l[3*k] >>
Hull(e) ==
  LET n == Len(e.l) \div 3  P == { Pt(e.l, k) : k \in 1..n }  FF == e.res.f  V == Verts(FF) IN
  /\ Chk("computed", e.ok)
  /\ IF n < 4 \/ ~Solid(P) THEN Eq("no hull", 0, Len(FF)) ELSE
     /\ Chk("there is a hull", FF # <<>>)
     /\ Chk("corners are points", V \subseteq P)
     /\ \A k \in 1..Len(FF) : Chk(<<"facet keeps the points on one side, normal outward", FF[k]>>, Outward(P, FF[k]))
     /\ Chk("the facets close", Closed(FF))
     /\ Eq("volume", Vol6(CHOOSE p \in V : TRUE, FF), e.res.vol6)
     /\ Chk(<<"centre", e.res.c>>, LET s == SumV(V)  m == Cardinality(V) IN \A k \in 1..3 : A_(e.res.c[k] * m - 1000 * s[k]) <= 2 * m)
     /\ LET D == { A_(Dot3(FF[k].n, << e.res.c[1] - 1000*FF[k].v[1][1], e.res.c[2] - 1000*FF[k].v[1][2], e.res.c[3] - 1000*FF[k].v[1][3] >>) \div 10000) : k \in { k \in 1..Len(FF) : Side(P, FF[k]) # 0 } } IN
        Chk(<<"greatest distance of a facet", e.res.md>>, \E d \in D : A_(d - e.res.md) <= 12 /\ \A x \in D : x <= d)
  /\ UNCHANGED wvars
Cone(e) ==
  LET L == e.res.l  N == e.n  c == CosT[e.mu]  s == SinT[e.mu]  m == Len3(e.nn)  k100 == e.uf * e.force IN     \* k100: length * 100
  /\ Chk("computed", e.ok)
  /\ Eq("earlier entries stay", TRUE, e.res.kept)
  /\ Eq("both forms agree", TRUE, e.res.same)
  /\ Eq("number of points", N, Len(L))
  /\ \A k \in 1..N :
       LET u == L[k].n IN
       /\ Chk(<<"unit direction", u>>, A_(Dot3(u, u) - 1000000) <= 4000)
       /\ Chk(<<"angle to the normal", u>>, A_(Dot3(u, e.nn) - (m * c) \div 10) <= 4 * m)
       /\ Chk(<<"point on the cone", L[k].p>>, \A x \in 1..3 : A_(100 * L[k].p[x] - k100 * u[x]) <= 100 + k100)
       /\ Eq("force", 100 * e.force, L[k].f)
       /\ \A q \in 1..N : Chk(<<"spread around the cone", k, q>>,
            A_(Dot3(u, L[q].n) - ((c \div 10) * (c \div 10) + ((((s \div 10) * (s \div 10)) \div 100) * CosDeg[Turn((360 \div N) * (q - k))]) \div 100)) <= 5000)
  /\ Chk(<<"angle, radius and height", e.res>>, A_(e.res.ang - 10 * e.mu) <= 2 /\ A_(e.res.rad - (e.uf * s) \div 100) <= 2 /\ A_(e.res.hgt - (e.uf * c) \div 100) <= 2)
  /\ UNCHANGED wvars
Wr(e) ==
  LET n == Len(e.l) \div 6 IN
  /\ Chk("computed", e.ok) /\ Eq("one wrench per contact", n, Len(e.res))
  /\ \A k \in 1..n :
       LET p == << e.l[6*k-5], e.l[6*k-4], e.l[6*k-3] >>  f == << e.l[6*k-2], e.l[6*k-1], e.l[6*k] >>
           t == Cross(Sub3(e.c, p), f)  g == IF e.len = 0 THEN 1 ELSE 2000 \div e.len IN
       /\ Eq("force", f, e.res[k].f)
       /\ Chk(<<"torque about the centre", t, e.res[k].t>>, \A x \in 1..3 : A_(e.res[k].t[x] - 1000 * g * t[x]) <= 2)
  /\ UNCHANGED wvars

Contacts(l) == [k \in 1..(Len(l) \div 6) |-> SubSeq(l, 6*k - 5, 6*k)]
RECURSIVE SumP(_, _, _)
SumP(cs, x, unit) == IF cs = <<>> THEN 0 ELSE (IF unit THEN (1000 * Head(cs)[3 + x]) \div Len3(<<Head(cs)[4], Head(cs)[5], Head(cs)[6]>>) ELSE 100 * Head(cs)[x]) + SumP(Tail(cs), x, unit)
SetContacts(e) ==
  LET cs == Contacts(e.l)  n == Len(cs)  com == meas[e.x].com IN
  /\ Chk("set", e.ok)
  /\ IF n = 0 THEN Eq("no contacts", << Zero3, Zero3 >>, << e.res.cp, e.res.cn >>)
     ELSE Chk(<<"contacts about the centre of the object", e.res>>, \A x \in 1..3 :
            /\ A_(n * (e.res.cp[x] + com[x]) - SumP(cs, x, FALSE)) <= 3 * n
            /\ A_(n * e.res.cn[x] - SumP(cs, x, TRUE)) <= 3 * n)
  /\ con' = [con EXCEPT ![e.x] = cs] /\ UNCHANGED <<meas, len, memo>>
Ambiguous(FF) == (\E k \in 1..Len(FF) : A_(FF[k].o) <= 3) /\ \A k \in 1..Len(FF) : FF[k].o <= 3
Full(e, x) ==
  LET r == e.res  cs == con[x]  N == meas[x].n  FF == r.f  W == r.W  V == r.w
      c == CosT[meas[x].mu]  apart == \A a, b \in 1..Len(W) : a < b => \E k \in 1..6 : A_(W[a][k] - W[b][k]) > 2 IN
  /\ Eq("one wrench per contact and direction", Len(cs) * N, Len(W))
  /\ \A k \in 1..Len(W) :
       LET q == cs[((k - 1) \div N) + 1]  f == << W[k][1], W[k][2], W[k][3] >>  t == << W[k][4], W[k][5], W[k][6] >>
           nn == << q[4], q[5], q[6] >>  m == Len3(nn)
           \* position about the centre in units of half the extension, 1/10000
           p == [y \in 1..3 |-> (200 * (100 * q[y] - meas[x].com[y])) \div (len[meas[x].o] \div 100)]
           fd == << f[1] \div 10, f[2] \div 10, f[3] \div 10 >>
           z == Cross(p, fd) IN
       /\ Chk(<<"force in the friction cone", W[k]>>, A_(Dot3(fd, nn) - (m * c) \div 10) <= 4 * m)
       /\ Chk(<<"torque of the force", W[k], z>>, \A y \in 1..3 : A_(t[y] + z[y] \div 1000) <= 60)
  /\ \A k \in 1..Len(V) : Chk(<<"corner of the hull is a wrench", V[k]>>, \E q \in 1..Len(W) : \A y \in 1..6 : A_(V[k][y] - W[q][y]) <= 3)
  /\ \A k \in 1..Len(W) : FF = <<>> \/ Chk(<<"wrench in the hull", W[k]>>, Inside6(FF, W[k]))
  /\ \A k \in 1..Len(FF) : Chk(<<"facet through its corners", FF[k]>>, \A q \in VSet(FF[k]) : A_(Plane(FF[k], V[q])) <= 12)
  /\ IF apart THEN Chk("the facets close", Closed6(FF)) ELSE TRUE
  /\ \A k \in 1..Len(FF) : /\ Chk(<<"distance of the origin", FF[k]>>, A_(FF[k].z - FF[k].o) <= 2)
                          /\ Chk(<<"distance of the centre", FF[k]>>, A_(FF[k].c - Plane(FF[k], r.ctr)) <= 12)
  /\ IF apart THEN LET mean == [y \in 1..6 |-> LET RECURSIVE sm(_) sm(k) == IF k = 0 THEN 0 ELSE V[k][y] + sm(k - 1) IN sm(Len(V))] IN
              Chk("centre of the hull", \A y \in 1..6 : A_(r.ctr[y] * Len(V) - mean[y]) <= 3 * Len(V)) ELSE TRUE
  /\ IF FF # <<>> /\ ~Ambiguous(FF) THEN Eq("force closure is the origin inside the hull", \A k \in 1..Len(FF) : FF[k].o <= 1, r.fc) ELSE TRUE
  /\ Eq("hull of at least seven wrenches", Len(W) >= 7, FF # <<>>)
  /\ IF FF = <<>> THEN Eq("no force closure, no quality", <<FALSE, 0>>, <<r.fc, r.q>>) ELSE
     Chk("offset of the hull", r.mo >= 0 /\ \E k \in 1..Len(FF) : A_(r.mo \div 10 + FF[k].c) <= 3 /\ \A q \in 1..Len(FF) : FF[q].c > 0 \/ FF[q].c <= FF[k].c + 6)
Same(a, b) == A_(a - b) <= 40 + b \div 40
Ask(e) ==
  LET r == e.res  x == e.x  key == Key(x)  others == { k \in DOMAIN memo : k[1] = key[1] /\ k[2] = key[2] /\ k[3] = key[3] } IN
  /\ Chk("asked", e.ok)
  /\ Eq("asking again", <<TRUE, TRUE>>, <<r.again, Same(r.q, r.q2)>>)
  /\ Eq("valid means force closure", r.fc, r.valid)
  /\ IF con[x] = <<>> THEN Eq("nothing without contacts", <<FALSE, 0, 0, FALSE>>, <<r.fc, r.q, r.v, r.has>>) /\ UNCHANGED memo ELSE
     /\ Eq("wrench space is there", TRUE, r.has)
     /\ IF meas[x].ows >= 0 THEN Chk(<<"given object wrench space", r.ows>>, A_(r.ows - meas[x].ows * 100) <= 2) ELSE Chk("object wrench space", r.ows > 0)
     /\ IF r.ows > 100 THEN Chk(<<"quality is relative to the object", r.q, r.mo, r.ows>>, r.q = 0 \/ A_((r.q \div 100) * (r.ows \div 100) - (r.mo \div 100) * 1000) <= 3 * (r.q \div 100) + 3 * (r.ows \div 100) + 3000) ELSE TRUE
     /\ IF key \in DOMAIN memo
        THEN Chk(<<"the same contacts, the same verdict", memo[key], r.fc, r.mo>>, (memo[key].fc = r.fc \/ ~memo[key].sure \/ ~r.sure) /\ Same(r.mo, memo[key].mo)) /\ UNCHANGED memo
        ELSE memo' = With(memo, key, [fc |-> r.fc, mo |-> r.mo, sure |-> r.sure])
     /\ Chk("more contacts keep force closure", \A k \in others : ~r.sure \/ ~memo[k].sure \/ ((k[4] \subseteq key[4] /\ memo[k].fc => r.fc) /\ (key[4] \subseteq k[4] /\ r.fc => memo[k].fc)))
     /\ Chk("force closure takes seven wrenches", r.fc => Len(con[x]) * meas[x].n >= 7)
     /\ IF Has(r, "f") THEN Full(e, x) ELSE TRUE
  /\ UNCHANGED <<meas, con, len>>

Step(e) ==
  CASE e.op = "qreset" -> meas' = <<>> /\ con' = <<>> /\ len' = <<>> /\ memo' = <<>>
    [] e.op = "newo" -> /\ Chk("made", e.ok) /\ UNCHANGED <<meas, con, memo>>
                        /\ len' = With(len, e.x, 200 * Max_(e.m[1], Max_(e.m[2], e.m[3])))
    [] e.op = "move" -> UNCHANGED wvars
    [] e.op = "qnew" -> /\ Chk("made", e.ok /\ e.res.obj) /\ Eq("name", "GraspWrenchSpace", e.res.nm)
                        /\ meas' = With(meas, e.x, [o |-> e.o, mu |-> e.mu, n |-> e.n, com |-> e.res.com, ows |-> -1])
                        /\ con' = With(con, e.x, <<>>) /\ UNCHANGED <<len, memo>>
    [] e.op \in {"qset", "qinf"} -> SetContacts(e)
    [] e.op = "qpre" -> meas' = [meas EXCEPT ![e.x].ows = e.d] /\ UNCHANGED <<con, len, memo>>
    [] e.op = "qask" -> Ask(e)
    [] e.op = "hull" -> Hull(e)
    [] e.op = "cone" -> Cone(e)
    [] e.op = "wrench" -> Wr(e)

TInit == i = 1 /\ meas = <<>> /\ con = <<>> /\ len = <<>> /\ memo = <<>>
TNext == i <= Len(Log) /\ i' = i + 1 /\ Step(Log[i])
=============================================================================
