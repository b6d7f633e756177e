------------------------------ MODULE Workspace ------------------------------
(* Voxel data of a robot's workspace and 2D grids of base positions.            *)
(* A workspace has six dimensions (x, y, z and three angles).  Its extent in    *)
(* dimension d is h[d] half steps; n[d] voxels of equal size divide it.  A      *)
(* pose is given by q: the first three components in quarters of a voxel        *)
(* counted from the lower bound, the other three as voxel numbers (the pose is  *)
(* at the middle of that voxel).  Poses are relative to the base node.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ws,      \* name -> [h, n, adj, based, lo, cells, amin, amax]
          files,   \* name -> the workspace stored in that file
          grids    \* name -> [h, n, x, y, val, gr]
wvars == <<ws, files, grids>>

LimitByte == 255
NumVox(h) == [d \in DOMAIN h |-> (h[d] \div 2) + 1]
None == <<>>
New(h, lo, adj, based) == [h |-> h, n |-> NumVox(h), lo |-> lo, adj |-> adj, based |-> based, cells |-> [v \in {} |-> 0], amin |-> None, amax |-> None]

Voxel(q) == [d \in 1..6 |-> IF d <= 3 THEN q[d] \div 4 ELSE q[d]]
Inside(w, v) == \A d \in DOMAIN v : 0 <= v[d] /\ v[d] < w.n[d]
Val(w, v) == IF v \in DOMAIN w.cells THEN w.cells[v] ELSE 0
(* the entry a pose has *)
Entry(w, q) == Val(w, Voxel(q))
Put(c, v, e) == IF e = 0 THEN [u \in DOMAIN c \ {v} |-> c[u]] ELSE [u \in DOMAIN c \cup {v} |-> IF u = v THEN e ELSE c[u]]
Cap(c, e) == [u \in DOMAIN c |-> IF c[u] > e THEN e ELSE c[u]]
Halved(c) == [u \in DOMAIN c |-> IF c[u] > 1 THEN c[u] \div 2 ELSE c[u]]
Raised(w, v) == IF Val(w, v) < LimitByte THEN Put(w.cells, v, Val(w, v) + 1)
                ELSE IF w.adj THEN Halved(w.cells) ELSE w.cells
RECURSIVE RaisedBy(_, _, _)
RaisedBy(w, v, k) == IF k = 0 THEN w.cells
                     ELSE IF Val(w, v) < LimitByte THEN LET m == IF LimitByte - Val(w, v) < k THEN LimitByte - Val(w, v) ELSE k IN
                                                         RaisedBy([w EXCEPT !.cells = Put(w.cells, v, Val(w, v) + m)], v, k - m)
                     ELSE IF ~w.adj THEN w.cells
                     ELSE RaisedBy([w EXCEPT !.cells = Halved(w.cells)], v, k - 1)
Lower_(a, b) == IF a > b THEN a ELSE b
Upper_(a, b) == IF a < b THEN a ELSE b
Around(w, v, k) == { u \in { <<a, b, c, d, e, f>> : a \in Lower_(0, v[1] - k)..Upper_(w.n[1] - 1, v[1] + k), b \in Lower_(0, v[2] - k)..Upper_(w.n[2] - 1, v[2] + k),
                                                  c \in Lower_(0, v[3] - k)..Upper_(w.n[3] - 1, v[3] + k), d \in Lower_(0, v[4] - k)..Upper_(w.n[4] - 1, v[4] + k),
                                                  e \in Lower_(0, v[5] - k)..Upper_(w.n[5] - 1, v[5] + k), f \in Lower_(0, v[6] - k)..Upper_(w.n[6] - 1, v[6] + k) } : TRUE }
(* e at v, and at the neighbours which have less *)
Spread(w, v, e, k) == LET c0 == Put(w.cells, v, e)
                          w0 == [w EXCEPT !.cells = c0]
                          low == IF k = 0 THEN {} ELSE { u \in Around(w, v, k) : Val(w0, u) < e }
                      IN  [u \in DOMAIN c0 \cup low |-> IF u \in low THEN e ELSE c0[u]]
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MaxEntry(w) == Max0({ w.cells[v] : v \in DOMAIN w.cells })
Filled(w) == Cardinality(DOMAIN w.cells)
RECURSIVE SumOver(_, _)
SumOver(w, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE u \in S : TRUE IN w.cells[v] + SumOver(w, S \ {v})
At(w, p) == { v \in DOMAIN w.cells : v[1] = p[1] /\ v[2] = p[2] /\ v[3] = p[3] }
Sum(w, p) == SumOver(w, At(w, p))
Avg(w, p) == Sum(w, p) \div (w.n[4] * w.n[5] * w.n[6])
MaxAt(w, p) == Max0({ w.cells[v] : v \in At(w, p) })
Positions(w) == { <<v[1], v[2], v[3]>> : v \in DOMAIN w.cells }
MaxSum(w) == Max0({ Sum(w, p) : p \in Positions(w) })
Border(w) == { p \in Positions(w) : \/ \E d \in 1..3 : p[d] = 0 \/ p[d] = w.n[d] - 1
                                    \/ \E d \in 1..3 : \E s \in {-1, 1} : [p EXCEPT ![d] = @ + s] \notin Positions(w) }
(* empty voxels surrounded by enough filled ones take their average *)
Beside(w, v) == { u \in { [v EXCEPT ![d] = @ + s] : d \in 1..6, s \in {-1, 1} } : u \in DOMAIN w.cells }
Holes(w, k) == LET m == IF k = 0 THEN 1 ELSE k IN
               IF \E d \in 1..6 : w.n[d] < 3 THEN {}
               ELSE { v \in { <<a, b, c, d, e, f>> : a \in 1..(w.n[1] - 2), b \in 1..(w.n[2] - 2), c \in 1..(w.n[3] - 2), d \in 1..(w.n[4] - 2), e \in 1..(w.n[5] - 2), f \in 1..(w.n[6] - 2) } :
                          v \notin DOMAIN w.cells /\ Cardinality(Beside(w, v)) >= m }
WithoutHoles(w, k) == LET H == Holes(w, k) IN
               [v \in DOMAIN w.cells \cup H |-> IF v \in H THEN SumOver(w, Beside(w, v)) \div Cardinality(Beside(w, v)) ELSE w.cells[v]]
(* smallest and greatest position seen so far *)
Seen(w, q) == [w EXCEPT !.amin = IF @ = None THEN <<q[1], q[2], q[3]>> ELSE [d \in 1..3 |-> Upper_(@[d], q[d])],
                        !.amax = IF @ = None THEN <<q[1], q[2], q[3]>> ELSE [d \in 1..3 |-> Lower_(@[d], q[d])]]
(* ------------------------------------------------------------ operations *)
Added(w, q, k) == LET s == Seen(w, q) IN IF Inside(w, Voxel(q)) THEN [s EXCEPT !.cells = RaisedBy(w, Voxel(q), k)] ELSE s
Assigned(w, q, e, k) == LET s == Seen(w, q) IN IF Inside(w, Voxel(q)) THEN [s EXCEPT !.cells = Spread(w, Voxel(q), e, k)] ELSE s
IfLower(w, q, e) == LET s == Seen(w, q) IN IF Inside(w, Voxel(q)) /\ Val(w, Voxel(q)) < e THEN [s EXCEPT !.cells = Put(w.cells, Voxel(q), e)] ELSE s
Cleared(w) == [w EXCEPT !.cells = [v \in {} |-> 0], !.amin = None, !.amax = None]
Create(id, w) == ws' = [x \in DOMAIN ws \cup {id} |-> IF x = id THEN w ELSE ws[x]] /\ UNCHANGED <<files, grids>>
Change(id, w) == ws' = [ws EXCEPT ![id] = w] /\ UNCHANGED <<files, grids>>
Store(id, f) == files' = [x \in DOMAIN files \cup {f} |-> IF x = f THEN ws[id] ELSE files[x]] /\ UNCHANGED <<ws, grids>>
Restore(id, f) == Create(id, [files[f] EXCEPT !.adj = TRUE])     \* the file does not tell what happens on overflow
(* ------------------------------------------------------------ cuts *)
(* a horizontal cut with cells of one step: cell a looks at voxel CutVox; h[d] in {4, 8} keeps the samples off the borders *)
CutVox(w, d, a) == ((1 + 2 * a) * w.n[d]) \div w.h[d]
CutCells(w, d) == 0..((w.h[d] \div 2) - 1)
Cut(w, q, sum) == LET v == Voxel(q) IN
   { c \in { [a |-> a, b |-> b, e |-> LET u == [v EXCEPT ![1] = CutVox(w, 1, a), ![2] = CutVox(w, 2, b)] IN
                                      IF ~Inside(w, u) THEN 0 ELSE IF sum THEN Sum(w, u) ELSE Val(w, u)] : a \in CutCells(w, 1), b \in CutCells(w, 2) } : c.e > 0 }
(* ------------------------------------------------------------ grids *)
(* extent h[1] x h[2] half steps from (x, y); a place is given in quarters of a cell *)
NewGrid(h, x, y) == [h |-> h, n |-> NumVox(h), x |-> x, y |-> y, val |-> [c \in {} |-> 0], gr |-> [c \in {} |-> {}]]
Cell(q) == <<q[1] \div 4, q[2] \div 4>>
InGrid(g, c) == c[1] >= 0 /\ c[2] >= 0 /\ c[1] < g.n[1] /\ c[2] < g.n[2]
GVal(g, c) == IF c \in DOMAIN g.val THEN g.val[c] ELSE 0
GSet(g, c) == IF c \in DOMAIN g.gr THEN g.gr[c] ELSE {}
Keep == 100          \* from this value on grasps are kept although the cell has a better one
Lifted(g, c, e, s) ==
   IF ~InGrid(g, c) THEN g
   ELSE LET better == GVal(g, c) <= e
            S == IF s # "-" /\ (better \/ e >= Keep) THEN GSet(g, c) \cup {s} ELSE GSet(g, c)
        IN  [g EXCEPT !.val = IF better /\ e # 0 THEN Put(@, c, e) ELSE @,
                      !.gr = IF S = {} THEN @ ELSE [x \in DOMAIN @ \cup {c} |-> IF x = c THEN S ELSE @[x]]]
Ring(c) == << c, <<c[1] - 1, c[2]>>, <<c[1] - 1, c[2] - 1>>, <<c[1] - 1, c[2] + 1>>, <<c[1], c[2] - 1>>, <<c[1], c[2] + 1>>, <<c[1] + 1, c[2] - 1>>, <<c[1] + 1, c[2]>>, <<c[1] + 1, c[2] + 1>> >>
RECURSIVE LiftAll(_, _, _, _)
LiftAll(g, cs, e, s) == IF cs = <<>> THEN g ELSE LiftAll(Lifted(g, Head(cs), e, s), Tail(cs), e, s)
Inner(g, c) == c[1] > 0 /\ c[2] > 0 /\ c[1] < g.n[1] - 1 /\ c[2] < g.n[2] - 1
LiftedAround(g, c, e, s) == IF ~InGrid(g, c) THEN g ELSE IF Inner(g, c) THEN LiftAll(g, Ring(c), e, s) ELSE Lifted(g, c, e, s)
GMax(g) == Max0({ g.val[c] : c \in DOMAIN g.val })
(* base positions from which the pose g (in w, robot at the origin) is reached with entry e *)
GNum(w, d, q, a, g0) == (50 * w.h[d] * q) - (4 * w.n[d] * (50 + (100 * a) + g0))
GDen(w, d, g) == 200 * w.n[d] * g.h[d]
BaseCell(w, g, q, c) == << (GNum(w, 1, q[1], c.a, g.x) * g.n[1]) \div GDen(w, 1, g), (GNum(w, 2, q[2], c.b, g.y) * g.n[2]) \div GDen(w, 2, g) >>
RECURSIVE FillFrom(_, _, _, _, _)
FillFrom(g, w, q, S, s) == IF S = {} THEN g ELSE LET c == CHOOSE x \in S : TRUE IN FillFrom(LiftedAround(g, BaseCell(w, g, q, c), c.e, s), w, q, S \ {c}, s)
FilledGrid(g, w, q, s) == FillFrom(g, w, q, Cut(w, q, FALSE), s)
(* worst values of several grids: the cell of grid k which the middle of cell i of the whole area is in *)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Low(g, d) == IF d = 1 THEN g.x ELSE g.y
Whole(G) == LET lo == [d \in 1..2 |-> SetMin({ Low(g, d) : g \in G })]
                up == [d \in 1..2 |-> SetMax({ Low(g, d) + (50 * g.h[d]) : g \in G })]
                h == [d \in 1..2 |-> (up[d] - lo[d]) \div 50]
            IN  NewGrid(h, lo[1], lo[2])
MNum(W, g, d, k) == (((Low(W, d) - Low(g, d)) * 2 * W.n[d]) + ((2 * k) + 1) * 50 * W.h[d]) * g.n[d]
MDen(W, g, d) == 2 * W.n[d] * 50 * g.h[d]
Sharp(W, G, c) == \A g \in G : \A d \in 1..2 : MNum(W, g, d, c[d]) % MDen(W, g, d) # 0
There(W, g, c) == << MNum(W, g, 1, c[1]) \div MDen(W, g, 1), MNum(W, g, 2, c[2]) \div MDen(W, g, 2) >>
Worst(W, G, c) == IF \E g \in G : ~InGrid(g, There(W, g, c)) THEN 0 ELSE SetMin({ GVal(g, There(W, g, c)) : g \in G })

WInit == ws = [x \in {} |-> 0] /\ files = [x \in {} |-> 0] /\ grids = [x \in {} |-> 0]
=============================================================================
