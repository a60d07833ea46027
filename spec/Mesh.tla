-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The fine mesh seen by the agglomeration: a graph whose nodes are the    *)
(* cells 1..n and whose edges are the faces.                               *)
(*   m.n     number of cells        m.dim   dimension, 2 or 3              *)
(*   m.adj   sequences of neighbours, in the order given by the caller     *)
(*   m.w     face weights, same shape                                      *)
(*   m.vol   volumes                m.cen   centers                        *)
(*   m.prio  priority weights       m.bnd   boundary faces as given        *)
(* All data are integers.                                                  *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC, SequencesExt

Cells(m)  == 1..m.n
Nb(m, c)  == {m.adj[c][k] : k \in DOMAIN m.adj[c]}
Deg(m, c) == Len(m.adj[c])

(* Boundary faces beyond the dimension are dropped *)
Bnd(m, c) == Min2(m.bnd[c], m.dim)

(* The order used everywhere: larger priority weight first, then lower index *)
Before(m, a, b) == \/ m.prio[a] > m.prio[b]
                   \/ m.prio[a] = m.prio[b] /\ a < b

SortCells(m, S) == SortSeq(SetToSeq(S), LAMBDA a, b : Before(m, a, b))

NbOfSet(m, S) == UNION {Nb(m, c) : c \in S}

(* Part of S that can be reached from the cells in front without leaving S *)
RECURSIVE Reach(_, _, _, _)
Reach(m, S, seen, front) ==
  LET nxt == (NbOfSet(m, front) \cap S) \ seen
  IN  IF nxt = {} THEN seen ELSE Reach(m, S, seen \cup nxt, nxt)

Connected(m, S) ==
  \/ S = {}
  \/ LET c == CHOOSE c \in S : TRUE IN Reach(m, S, {c}, {c}) = S

Shared(m, c, S) == Cardinality(Nb(m, c) \cap S)

(* Compactness: fewest neighbours inside the set over its cells *)
Compactness(m, S) ==
  IF Cardinality(S) <= 1 THEN 0 ELSE MinOf({Shared(m, c, S) : c \in S})

SqDist(m, a, b) ==
  LET RECURSIVE Go(_)
      Go(k) == IF k = 0 THEN 0
               ELSE (m.cen[a][k] - m.cen[b][k]) * (m.cen[a][k] - m.cen[b][k])
                    + Go(k - 1)
  IN  Go(Len(m.cen[a]))

SumOver(S, f(_)) ==
  LET RECURSIVE Go(_)
      Go(T) == IF T = {} THEN 0
               ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + Go(T \ {x})
  IN  Go(S)

SumSeq(s) ==
  LET RECURSIVE Go(_)
      Go(k) == IF k = 0 THEN 0 ELSE s[k] + Go(k - 1)
  IN  Go(Len(s))

WellFormed(m) ==
  /\ \A c \in Cells(m) : /\ c \notin Nb(m, c)
                         /\ Cardinality(Nb(m, c)) = Len(m.adj[c])
                         /\ Len(m.w[c]) = Len(m.adj[c])
                         /\ \A d \in Nb(m, c) : c \in Nb(m, d)

(*------------------------ results as sets of cells -----------------------*)
(* A result f2c gives for each cell the identifier (from 0) of its coarse  *)
(* cell.                                                                   *)
NbCC(f2c)     == Cardinality({f2c[c] : c \in DOMAIN f2c})
CCof(f2c, id) == {c \in DOMAIN f2c : f2c[c] = id}

IsPartition(m, f2c) ==
  /\ Len(f2c) = m.n
  /\ LET ids == {f2c[c] : c \in DOMAIN f2c}
     IN  ids = 0..(Cardinality(ids) - 1)
=============================================================================
