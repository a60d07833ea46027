------------------------------ MODULE MC_Small ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the documented algorithm on all the labelled  *)
(* graphs with up to N cells (no geometry: cells are on a line) and all    *)
(* the boundary data and settings of the sets below.                       *)
(***************************************************************************)
EXTENDS CoMMA

CONSTANTS N, BndVals, Kinds, Cards, ARs, Sings, LineModes

RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>>
                     ELSE LET x == MinOf(S) IN <<x>> \o SetToSortedSeq(S \ {x})

Edges(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}

MeshOf(n, E, b) ==
  LET nb(x) == {y \in 1..n : <<x, y>> \in E \/ <<y, x>> \in E}
  IN  [n |-> n, dim |-> 2, adj |-> [x \in 1..n |-> SetToSortedSeq(nb(x))],
       w |-> [x \in 1..n |-> [k \in 1..Cardinality(nb(x)) |-> 12]],
       vol |-> [x \in 1..n |-> 1], cen |-> [x \in 1..n |-> <<x, 0>>],
       prio |-> [x \in 1..n |-> x % 2], bnd |-> b]

Config(k, o, cd, ar, nb, s, l) ==
  [kind |-> k, one |-> o, goal |-> cd[2], min |-> cd[1], max |-> cd[3], ar |-> ar,
   nb |-> nb, iter |-> 1, corr |-> TRUE, sing |-> s, aniso |-> l # 0, build |-> l = 1,
   lines |-> IF l = 2 THEN <<<<2, 1, 3>>>> ELSE <<>>, odd |-> TRUE, maxc |-> -1,
   thr |-> <<-1, 1>>, comp |-> IF l = 1 THEN <<1, 2, 3>> ELSE <<>>, coup |-> 0,
   force |-> FALSE]

MCCards == {<<2, 2, 2>>, <<2, 2, 3>>, <<3, 3, 4>>}

MCInit ==
  \E n \in 0..N : \E E \in SUBSET Edges(n) : \E b \in [1..n -> BndVals] :
  \E k \in Kinds : \E o \in BOOLEAN : \E cd \in Cards : \E ar \in ARs :
  \E nb \in {0, 1} : \E s \in Sings : \E l \in LineModes :
    /\ l = 2 => /\ n >= 3
                /\ <<1, 2>> \in E
                /\ <<1, 3>> \in E
    /\ l = 1 => n >= 3
    /\ Request(MeshOf(n, E, b), Config(k, o, cd, ar, nb, s, l))

MCSpec == MCInit /\ [][Agglomerate]_vars
=============================================================================
