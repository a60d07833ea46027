----------------------------- MODULE MC_Levels -----------------------------
(***************************************************************************)
(* Hierarchies: the agglomeration of MC_Small applied to its own coarse    *)
(* meshes, with the lines handed back, until no face is left.  base is the *)
(* finest mesh, comp the composition of the levels done so far.            *)
(***************************************************************************)
EXTENDS MC_Small, Utilities

VARIABLES base, comp

lvars == <<vars, base, comp>>

LInit == MCInit /\ base = m /\ comp = [x \in 1..m.n |-> x - 1]

HasFaces(g) == \E x \in Cells(g) : g.adj[x] # <<>>

Coarser(g) == [n |-> g.n, dim |-> m.dim, adj |-> g.adj, w |-> g.w, vol |-> g.vol,
               cen |-> [x \in 1..g.n |-> <<x, 0>>], prio |-> g.prio, bnd |-> g.bnd]

(* Coarse lines as lines of the next mesh *)
HandedBack == SelectSeq([j \in DOMAIN CoarseLines |->
                          [k \in DOMAIN CoarseLines[j] |-> CoarseLines[j][k] + 1]],
                        LAMBDA l : l # <<>>)

NextLevel ==
  /\ phase = "done" /\ HasFaces(m)
  /\ m' = Coarser(CoarseMesh(m, out))
  /\ c' = [c EXCEPT !.build = FALSE, !.lines = HandedBack]
  /\ comp' = [x \in DOMAIN comp |-> out[comp[x] + 1]]
  /\ phase' = "lines" /\ lines' = <<>> /\ pairs' = <<>> /\ todo' = <<>>
  /\ ccs' = <<>> /\ na' = 0 /\ free' = 1..NbCC(out)
  /\ pool' = EmptyPool /\ out' = <<>>
  /\ UNCHANGED base

LNext == (Agglomerate /\ UNCHANGED <<base, comp>>) \/ NextLevel
LSpec == LInit /\ [][LNext]_lvars

(* The mesh of every level is that of the composition *)
Composition ==
  /\ base.n > 0 => IsPartition(base, comp) /\ NbCC(comp) = m.n
  /\ \A id \in ToSet(comp) : Connected(base, CCof(comp, id))
  /\ base.n > 0 => LET e == CoarseMesh(base, comp)
                   IN  /\ m.adj = e.adj /\ m.w = e.w /\ m.vol = e.vol
                       /\ m.prio = e.prio /\ m.bnd = e.bnd

Coarsens == phase = "done" /\ HasFaces(m) => NbCC(out) < m.n

(* What is left at the end is one cell per component *)
RECURSIVE Component(_, _)
Component(g, S) == LET T == S \cup NbOfSet(g, S) IN IF T = S THEN S ELSE Component(g, T)
OnePerComponent ==
  ~HasFaces(m) => \A x, y \in Cells(base) : y \in Component(base, {x}) => comp[x] = comp[y]

(* Lines stay made of adjacent cells *)
LinesOfNeighbours ==
  c.build \/ base = m \/ \A j \in DOMAIN c.lines : \A k \in 1..(Len(c.lines[j]) - 1) :
    c.lines[j][k + 1] \in Nb(m, c.lines[j][k])
=============================================================================
