--------------------------- MODULE WorkspaceTrace ---------------------------
EXTENDS Workspace, Common
Cells(w) == { [v |-> u, e |-> w.cells[u]] : u \in DOMAIN w.cells }
State(w) == [max |-> MaxEntry(w), filled |-> Filled(w), cells |-> Cells(w)]
Shown(p) == [max |-> p.max, filled |-> p.filled, cells |-> ToSet_(p.cells)]
(* what every workspace reports after the operation *)
Shows(e) == /\ Eq("workspaces", DOMAIN ws', DOMAIN Fn(e.ws))
            /\ \A x \in DOMAIN ws' : /\ Eq(<<"entries of", x>>, Cells(ws'[x]), ToSet_(e.ws[x].cells))
                                     /\ Eq(<<"maximum of", x>>, MaxEntry(ws'[x]), e.ws[x].max)
                                     /\ Eq(<<"filled voxels of", x>>, Filled(ws'[x]), e.ws[x].filled)
            /\ Eq("grids", DOMAIN grids', DOMAIN Fn(e.grids))
            /\ \A x \in DOMAIN grids' : /\ Eq(<<"cells of", x>>, { [c |-> c, e |-> grids'[x].val[c]] : c \in DOMAIN grids'[x].val }, ToSet_(e.grids[x].val))
                                        /\ Eq(<<"grasps of", x>>, { [c |-> c, s |-> grids'[x].gr[c]] : c \in DOMAIN grids'[x].gr },
                                                                  { [c |-> y.c, s |-> ToSet_(y.s)] : y \in ToSet_(e.grids[x].gr) })
Stay == UNCHANGED wvars
W(e) == ws[e.id]
G(e) == grids[e.id]
Regrid(id, g) == grids' = With(grids, id, g) /\ UNCHANGED <<ws, files>>
VoxOr(w, v) == IF Inside(w, v) THEN v ELSE <<>>
Pos(v) == <<v[1], v[2], v[3]>>
Answer(w, q) == [entry |-> Entry(w, q), cov |-> Entry(w, q) > 0, vox |-> VoxOr(w, Voxel(q)), posvox |-> VoxOr(w, Pos(Voxel(q))), maxpos |-> MaxAt(w, Voxel(q))]
Do(e) ==
  CASE e.op = "new" -> Eq("voxels", NumVox(e.h), e.res) /\ Create(e.id, New(e.h, e.lo, e.adj, e.based))
    [] e.op = "move" -> Stay
    [] e.op = "add" -> Change(e.id, Added(W(e), e.q, e.k))
    [] e.op = "set" -> Change(e.id, Assigned(W(e), e.q, e.e, e.k))
    [] e.op = "tcp" -> Change(e.id, IF e.how = "add" THEN Added(W(e), e.q, 1) ELSE IF e.how = "set" THEN Assigned(W(e), e.q, e.e, 0) ELSE IfLower(W(e), e.q, e.e))
    [] e.op = "setv" -> Change(e.id, [W(e) EXCEPT !.cells = Spread(W(e), e.v, e.e, e.k)])
    [] e.op = "bin" -> Change(e.id, [W(e) EXCEPT !.cells = Cap(@, 1)])
    [] e.op = "bis" -> Change(e.id, [W(e) EXCEPT !.cells = Halved(@)])
    [] e.op = "clear" -> Change(e.id, Cleared(W(e)))
    [] e.op = "holes" -> Eq("changed", Cardinality(Holes(W(e), e.k)), e.res) /\ Change(e.id, [W(e) EXCEPT !.cells = WithoutHoles(W(e), e.k)])
    [] e.op = "clone" -> Create(e.to, W(e))
    [] e.op = "save" -> Eq("saved", TRUE, e.ok) /\ Store(e.id, e.f)
    [] e.op = "load" -> (IF e.f \in DOMAIN files THEN Eq("loaded", TRUE, e.ok) /\ Restore(e.id, e.f) ELSE Eq("refused", FALSE, e.ok) /\ Stay)
    [] e.op = "get" -> Eq("at pose", Answer(W(e), e.q), e.res) /\ Stay
    [] e.op = "vget" -> Eq("voxel entry", Val(W(e), e.v), e.res) /\ Stay
    [] e.op = "at" -> Eq("at position", [sum |-> Sum(W(e), e.v), avg |-> Avg(W(e), e.v), max |-> MaxAt(W(e), e.v), has |-> At(W(e), e.v) # {}], e.res) /\ Stay
    [] e.op = "tot" -> /\ LET w == W(e) IN Eq("totals", [maxsum |-> MaxSum(w), dsum |-> MaxSum(w), max |-> MaxEntry(w), all |-> w.n[1] * w.n[2] * w.n[3], fil |-> Cardinality(Positions(w)), bor |-> Cardinality(Border(w)),
                                                         amin |-> w.amin, amax |-> w.amax], e.res)
                       /\ Stay
    [] e.op = "mid" -> Eq("middle of a voxel", [a |-> e.v, b |-> e.v], e.res) /\ Stay
    [] e.op = "sample" -> /\ IF Filled(W(e)) = 0 THEN TRUE ELSE Chk(<<"sample is covered", e.res>>, e.res \in DOMAIN W(e).cells)
                          /\ Stay
    [] e.op = "cut" -> Eq("cut", Cut(W(e), e.q, e.sum), ToSet_(e.res.cut)) /\ Eq("transformations", Cut(W(e), e.q, e.sum), ToSet_(e.res.tr)) /\ Stay
    [] e.op = "reach" -> Eq("reachable grasps", { x \in DOMAIN e.qs : Entry(W(e), e.qs[x]) > 0 }, ToSet_(e.res)) /\ Stay
    [] e.op = "gnew" -> Eq("cells", NumVox(e.h), e.res) /\ Regrid(e.id, NewGrid(e.h, e.p[1], e.p[2]))
    [] e.op = "gset" -> Regrid(e.id, IF e.around THEN LiftedAround(G(e), Cell(e.q), e.e, e.s) ELSE Lifted(G(e), Cell(e.q), e.e, e.s))
    [] e.op = "gcell" -> Regrid(e.id, Lifted(G(e), e.q, e.e, e.s))
    [] e.op = "gget" -> /\ LET g == G(e)  c == Cell(e.q) IN
                           /\ Eq("value", GVal(g, c), e.res.e)
                           /\ Eq("maximum", GMax(g), e.res.max)
                           /\ IF ~InGrid(g, c) THEN Eq("outside", FALSE, e.res.in)
                              ELSE /\ IF GVal(g, c) > 0 THEN Eq("inside", TRUE, e.res.in) ELSE TRUE
                                   /\ IF e.res.in THEN Eq("grasps", GSet(g, c), ToSet_(e.res.gs)) /\ Eq("stored", GVal(g, c), e.res.e2) ELSE TRUE
                        /\ Stay
    [] e.op = "greset" -> Regrid(e.id, NewGrid(G(e).h, G(e).x, G(e).y))
    [] e.op = "gmove" -> Eq("lower corner", e.p, e.res) /\ Regrid(e.id, [G(e) EXCEPT !.x = e.p[1], !.y = e.p[2]])
    [] e.op = "grand" -> /\ IF e.res.found THEN /\ Chk(<<"random place", e.res>>, e.res.e >= e.min)
                                                /\ Chk(<<"grasp of that place", e.res>>, e.res.s = "" \/ \E c \in DOMAIN G(e).gr : e.res.s \in G(e).gr[c])
                            ELSE TRUE
                         /\ (IF e.min > GMax(G(e)) THEN Eq("nowhere", FALSE, e.res.found) ELSE TRUE)
                         /\ Stay
    [] e.op = "gfill" -> Regrid(e.id, FilledGrid(G(e), ws[e.w], e.q, e.s))
    [] e.op = "gmerge" -> /\ LET S == { grids[x] : x \in ToSet_(e.ids) }  M == Whole(S) IN
                             /\ Eq("cells", M.n, e.res.n)
                             /\ \A y \in ToSet_(e.res.val) : Sharp(M, S, y.c) => Eq(<<"worst", y.c>>, Worst(M, S, y.c), y.e)
                          /\ Stay
Step(e) == /\ IF e.op \in {"load", "save"} THEN TRUE ELSE Eq("accepted", TRUE, e.ok)
           /\ Do(e)
           /\ Shows(e)
TInit == i = 1 /\ WInit
TNext == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
=============================================================================
