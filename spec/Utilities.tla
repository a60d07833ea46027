----------------------------- MODULE Utilities -----------------------------
(***************************************************************************)
(* The utilities around the agglomeration: coarse graph, wall distance,    *)
(* filter of cells.                                                        *)
(***************************************************************************)
EXTENDS Features, Lines

(*------------------------------ coarse graph -----------------------------*)
(* C gives the fine cells of each coarse cell, numbered from 0 *)
CoarseNb(m, f2c, C(_), id) == {f2c[x] : x \in NbOfSet(m, C(id))} \ {id}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o Sorted(S \ {x})

(* Sum of the weights of the faces of the cells of S towards b *)
FaceWeight(m, f2c, S, b) ==
  SumOver(S, LAMBDA x :
    LET RECURSIVE Go(_)
        Go(k) == IF k = 0 THEN 0
                 ELSE (IF f2c[m.adj[x][k]] = b THEN m.w[x][k] ELSE 0) + Go(k - 1)
    IN  Go(Deg(m, x)))

(* Coarse cells are numbered from 1 as for any mesh; the centers are given *)
(* as sums of volume times center                                          *)
CoarseFrom(m, f2c, n, C(_)) ==
  LET nb == [a \in 1..n |-> Sorted(CoarseNb(m, f2c, C, a - 1))]
  IN  [n    |-> n,
       adj  |-> [a \in 1..n |-> [k \in DOMAIN nb[a] |-> nb[a][k] + 1]],
       w    |-> [a \in 1..n |-> [k \in DOMAIN nb[a] |-> FaceWeight(m, f2c, C(a - 1), nb[a][k])]],
       vol  |-> [a \in 1..n |-> Measure(m, C(a - 1))],
       sum  |-> [a \in 1..n |-> SumCenters(m, C(a - 1))],
       prio |-> [a \in 1..n |-> MaxOf({m.prio[x] : x \in C(a - 1)})],
       bnd  |-> [a \in 1..n |-> MaxOf({m.bnd[x] : x \in C(a - 1)})]]

CoarseMesh(m, f2c) == CoarseFrom(m, f2c, NbCC(f2c), LAMBDA id : CCof(f2c, id))

(*----------------------------- wall distance -----------------------------*)
RECURSIVE WallFrom(_, _, _, _)
WallFrom(m, d, front, k) ==
  LET nxt == NbOfSet(m, front) \ DOMAIN d
  IN  IF nxt = {} THEN d
      ELSE WallFrom(m, d @@ [x \in nxt |-> k], nxt, k + 1)

(* -1 where the wall cannot be reached *)
WallDistance(m, wall) ==
  LET d == WallFrom(m, [x \in wall |-> 0], wall, 1)
  IN  [x \in Cells(m) |-> IF x \in DOMAIN d THEN d[x] ELSE -1]

(* The distance is the only solution of these equations *)
WallEquations(m, wall, d) ==
  \A x \in Cells(m) :
    /\ (d[x] = 0) <=> (x \in wall)
    /\ d[x] > 0 => /\ \E y \in Nb(m, x) : d[y] = d[x] - 1
                   /\ \A y \in Nb(m, x) : d[y] >= d[x] - 1
    /\ d[x] < 0 => \A y \in Nb(m, x) : d[y] < 0

(*-------------------------- queries to the graph -------------------------*)
(* Estimated weight of the boundary faces of a cell, mean of the others.   *)
(* Undefined for isolated cells with boundary faces.                       *)
BndWeight(m, c) ==
  IF m.bnd[c] = 0 THEN 0 ELSE (m.bnd[c] * SumSeq(m.w[c])) \div Deg(m, c)

CellCompactness(m, S, c) ==
  IF Cardinality(S) = 1 THEN 0 ELSE Shared(m, c, S)

(* Distances from a set through the cells not yet taken: all those within  *)
(* depth and, until card cells have been found, those farther              *)
RECURSIVE DistFrom(_, _, _, _, _, _, _)
DistFrom(m, depth, card, taken, d, front, o) ==
  IF o > depth /\ Cardinality(DOMAIN d) >= card THEN d
  ELSE LET nxt == NbOfSet(m, front) \ (DOMAIN d \cup taken)
       IN  IF nxt = {} THEN d
           ELSE DistFrom(m, depth, card, taken, d @@ [c \in nxt |-> o], nxt, o + 1)

Around(m, depth, card, taken, S) ==
  LET d == DistFrom(m, depth, card, taken, [c \in S |-> 0], S, 1)
  IN  [c \in DOMAIN d \ S |-> d[c]]

(*----------------------------- filter of cells ---------------------------*)
Filter(m, allowed) ==
  Sorted({x \in Cells(m) : LET k == Deg(m, x) + m.bnd[x] IN k > 0 /\ k \in allowed})
=============================================================================
