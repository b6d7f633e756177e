---------------------------- MODULE MC_Workspace ----------------------------
(* Small instance: workspaces of 2 x 1 x 1 x 1 x 1 x 2 voxels.                 *)
EXTENDS Workspace, TLC, Json
CONSTANT MaxLevel, Sim
VARIABLES hist, lv
mvars == <<ws, files, grids, hist, lv>>
H(r) == /\ hist' = IF Sim THEN Append(hist, r) ELSE hist
        /\ lv' = lv + 1
Ids == {"w1", "w2"}
HH == <<2, 1, 1, 1, 1, 3>>
Lo == <<0, -300, 50, 0, 0, 0>>
Qs == { <<1, 2, 2, 0, 0, 0>>, <<3, 1, 2, 0, 0, 0>>, <<6, 2, 2, 0, 0, 0>>, <<6, 2, 2, 0, 0, 1>>, <<-3, 2, 2, 0, 0, 0>>, <<11, 2, 2, 0, 0, 1>>, <<2, -5, 3, 0, 0, 1>> }
Vs == { <<0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 1>> }
MInit == WInit /\ hist = <<>> /\ lv = 0
Make == \E id \in Ids : \E adj \in BOOLEAN : id \notin DOMAIN ws /\ Create(id, New(HH, Lo, adj, TRUE)) /\ H([op |-> "new", id |-> id, h |-> HH, lo |-> Lo, adj |-> adj, based |-> TRUE, ori |-> "hopf", kind |-> "ws"])
AddQ == \E id \in DOMAIN ws : \E q \in Qs : \E k \in {1, 254} : Change(id, Added(ws[id], q, k)) /\ H([op |-> "add", id |-> id, q |-> q, k |-> k])
SetQ == \E id \in DOMAIN ws : \E q \in Qs : \E e \in {0, 3} : \E k \in {0, 1} : Change(id, Assigned(ws[id], q, e, k)) /\ H([op |-> "set", id |-> id, q |-> q, e |-> e, k |-> k])
SetV == \E id \in DOMAIN ws : \E v \in Vs : \E e \in {0, 255} : Change(id, [ws[id] EXCEPT !.cells = Spread(ws[id], v, e, 0)]) /\ H([op |-> "setv", id |-> id, v |-> v, e |-> e, k |-> 0, how |-> "w"])
Bin == \E id \in DOMAIN ws : Change(id, [ws[id] EXCEPT !.cells = Cap(@, 1)]) /\ H([op |-> "bin", id |-> id])
Bis == \E id \in DOMAIN ws : Change(id, [ws[id] EXCEPT !.cells = Halved(@)]) /\ H([op |-> "bis", id |-> id])
Clr == \E id \in DOMAIN ws : Change(id, Cleared(ws[id])) /\ H([op |-> "clear", id |-> id])
Cln == \E id \in DOMAIN ws : \E to \in Ids \ {id} : Create(to, ws[id]) /\ H([op |-> "clone", id |-> id, to |-> to])
Sav == \E id \in DOMAIN ws : Store(id, "f") /\ H([op |-> "save", id |-> id, f |-> "f"])
Loa == \E id \in Ids : "f" \in DOMAIN files /\ Restore(id, "f") /\ H([op |-> "load", id |-> id, f |-> "f", kind |-> "ws", own |-> TRUE])
Look == /\ Sim /\ \E id \in DOMAIN ws : \/ \E q \in Qs : H([op |-> "get", id |-> id, q |-> q])
                                        \/ H([op |-> "tot", id |-> id])
                                        \/ H([op |-> "sample", id |-> id])
                                        \/ \E x \in 0..1 : H([op |-> "at", id |-> id, v |-> <<x, 0, 0>>])
        /\ UNCHANGED wvars
MNext == lv < MaxLevel /\ (Make \/ AddQ \/ SetQ \/ SetV \/ Bin \/ Bis \/ Clr \/ Cln \/ Sav \/ Loa \/ Look)
Emit == ~Sim \/ lv < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
Bytes == \A id \in DOMAIN ws : \A v \in DOMAIN ws[id].cells : ws[id].cells[v] \in 1..255 /\ Inside(ws[id], v)
Agree == \A id \in DOMAIN ws : LET w == ws[id] IN
            /\ (MaxEntry(w) = 0) <=> (Filled(w) = 0)
            /\ MaxSum(w) >= MaxEntry(w)
            /\ \A p \in Positions(w) : MaxAt(w, p) <= Sum(w, p) /\ Sum(w, p) <= 255 * Cardinality(At(w, p))
            /\ \A q \in Qs : Entry(w, q) > 0 => Inside(w, Voxel(q))
(* an operation changes one workspace only *)
Apart == [][ \E id \in Ids : \A x \in DOMAIN ws : x # id => x \in DOMAIN ws' /\ ws'[x] = ws[x] ]_mvars
(* a pose outside never changes entries *)
Outside == \A id \in DOMAIN ws : \A q \in Qs : ~Inside(ws[id], Voxel(q)) => Added(ws[id], q, 1).cells = ws[id].cells /\ Assigned(ws[id], q, 3, 1).cells = ws[id].cells
=============================================================================
