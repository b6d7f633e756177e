------------------------------ MODULE MC_Post -------------------------------
(* Small instance of path processing: a walk over a lattice around an obstacle *)
(* is shortened by cuts and by pruning.  Whatever is cut, the ends stay, the   *)
(* length does not grow and a valid path stays valid.                          *)
EXTENDS Plan, TLC, Json

CONSTANT MaxLevel, Sim, N
VARIABLES cur, ph, hist
mvars == <<env, sp, pa, pl, px, wa, cur, ph, hist>>
Xs == {-400, 0, 400}
Cs == { <<x, y>> : x \in Xs, y \in Xs } \ {<<0, 0>>}
H(r) == hist' = IF Sim THEN Append(hist, r) ELSE hist
In == pa["p"].p
MInit == /\ env = [ax |-> <<1, 2>>, hb |-> <<30, 30, 300>>, p0 |-> <<0, 0, 0>>, lim |-> <<<<-450, 450>>, <<-450, 450>>>>, obs |-> <<[c |-> <<0, 0, 0>>, h |-> <<100, 100, 100>>]>>]
         /\ sp = [s \in {"S"} |-> [kind |-> "sampled", lo |-> <<-450, -450>>, hi |-> <<450, 450>>, w |-> <<1, 1>>, use |-> FALSE, samp |-> 300, dcd |-> 100, cap |-> 20, used |-> {}, con |-> <<>>]]
         /\ pa = [x \in {"p"} |-> [k |-> "cspace", s |-> "S", p |-> <<>>]] /\ px = [x \in {"X"} |-> [k |-> "short", s |-> "S", in |-> <<>>, opt |-> NoOpt]]
         /\ wa = [m |-> "", at |-> 0] /\ pl = [x \in {} |-> 0]
         /\ cur = <<>> /\ ph = "walk" /\ hist = <<>>
Apart(a, b) == AbsI(a[1] - b[1]) + AbsI(a[2] - b[2])
Walk == /\ ph = "walk" /\ Len(In) < N
        /\ \E c \in Cs : (IF Len(In) = 0 THEN TRUE ELSE Apart(In[Len(In)], c) = 400)
                         /\ pa' = [pa EXCEPT !["p"].p = Append(@, c)] /\ H([op |-> "padd", p |-> "p", c |-> c])
        /\ UNCHANGED <<env, sp, pl, px, wa, cur, ph>>
Start == /\ ph = "walk" /\ Len(In) >= 3 /\ ph' = "cut" /\ cur' = In /\ NewProc("X", "short", "p") /\ UNCHANGED <<env, sp, pa, pl, wa>> /\ H([op |-> "xnew", x |-> "X", k |-> "short", p |-> "p"])
Pts(a, b) == LET L == Dist("S", a, b, TRUE)  n == (L - 1) \div 3000 IN [k \in 1..n |-> At(a, b, 3000 * k, L)]
Replace(p, k, l) == SubSeq(p, 1, k+1) \o Pts(p[k+1], p[l+1]) \o SubSeq(p, l+1, Len(p))
Cut == /\ ph = "cut" /\ \E k \in 0..Len(cur)-2 : \E l \in k+1..Len(cur)-1 :
            /\ l - k >= 2 /\ cur[k+1] # cur[l+1]
            /\ CutAllowed("S", cur, k, l) = "yes"
            /\ cur' = Replace(cur, k, l) /\ H([op |-> "xcut", x |-> "X", k |-> k, l |-> l])
       /\ UNCHANGED <<env, sp, pa, pl, px, wa, ph>>
RECURSIVE Prune_(_, _)
Prune_(p, k) == IF k + 2 > Len(p) THEN p ELSE IF Segment("S", p[k], p[k+2]) = "yes" THEN Prune_(SubSeq(p, 1, k) \o SubSeq(p, k+2, Len(p)), MaxI(1, k-1)) ELSE Prune_(p, k+1)
Prune == ph = "cut" /\ cur' = Prune_(In, 1) /\ H([op |-> "xprune", x |-> "X"]) /\ UNCHANGED <<env, sp, pa, pl, px, wa, ph>>
Ask == /\ Sim /\ ph = "cut" /\ \E k \in 0..Len(cur)-2 : \E l \in k+1..Len(cur)-1 : H([op |-> "xok", x |-> "X", k |-> k, l |-> l])
       /\ UNCHANGED <<env, sp, pa, pl, px, wa, cur, ph>>
Look == Sim /\ ph = "cut" /\ H([op |-> "pcont", p |-> "p"]) /\ UNCHANGED <<env, sp, pa, pl, px, wa, cur, ph>>
MNext == Walk \/ Start \/ Cut \/ Prune \/ Ask \/ Look
Emit == Len(hist) < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
(* invariants *)
Kept == ph = "cut" => ShortcutOK("S", In, cur)
StaysValid == ph = "cut" /\ ValidPts("S", In) = "yes" => ValidPts("S", cur) # "no"
InputKept == [][ph = "cut" => pa' = pa]_mvars
Shrinks == [][ph = "cut" /\ cur # In /\ cur' # Prune_(In, 1) => LenOfPts("S", cur', TRUE) <= LenOfPts("S", cur, TRUE) + 20]_mvars
PrunedIsPruned == ph = "cut" => PrunedOK("S", In, Prune_(In, 1))
=============================================================================
