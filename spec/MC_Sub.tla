------------------------------- MODULE MC_Sub -------------------------------
(***************************************************************************)
(* The graph kept by a coarse cell: all the short histories of insertions  *)
(* and removals on the graphs with N cells, printed and replayed on the    *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS Subgraphs, Json

CONSTANTS N, Depth

VARIABLES m, s, h

svars == <<m, s, h>>

PairsOfCells == {e \in (1..N) \X (1..N) : e[1] < e[2]}
(* Weights and volumes all different, so that none stands for another *)
MeshOf(E) ==
  LET nb(x) == {y \in 1..N : <<x, y>> \in E \/ <<y, x>> \in E}
      adj   == [x \in 1..N |-> SetToSortSeq(nb(x), <)]
  IN  [n |-> N, dim |-> 2, adj |-> adj, vol |-> [x \in 1..N |-> 2 * x + 1],
       w |-> [x \in 1..N |-> [k \in DOMAIN adj[x] |-> Min2(x, adj[x][k]) * N + Max2(x, adj[x][k])]]]

MCInit == /\ \E E \in SUBSET PairsOfCells : m = MeshOf(E)
          /\ s = {} /\ h = <<>>

Do(op, S) == h' = Append(h, [op |-> op, cells |-> SetToSortSeq(S, <)])

MCNext ==
  /\ Len(h) < Depth
  /\ UNCHANGED m
  /\ \/ /\ h = <<>>
        /\ \E S \in SUBSET Cells(m) : S # {} /\ s' = SubNew(S) /\ Do("new", S)
     \/ /\ h # <<>>
        /\ \/ \E x \in Cells(m) \ s : s' = SubAdd(s, {x}) /\ Do("add", {x})
           \/ \E S \in SUBSET (Cells(m) \ s) : /\ Cardinality(S) > 1
                                               /\ s' = SubAdd(s, S) /\ Do("addall", S)
           \/ \E x \in s : s' = SubDel(s, x) /\ Do("del", {x})

MCSpec == MCInit /\ [][MCNext]_svars

Record == IF Len(h') = Depth THEN PrintT("HIST " \o ToJson([m |-> m, ops |-> h'])) ELSE TRUE

(* Adding and removing in any order only depends on what is in *)
Symmetric ==
  LET g == InducedGraph(m, s)
  IN  \A x \in s : \A e \in g[x] : <<x, e[2]>> \in g[e[1]]
DegreeBound == s # {} => SubCompactness(m, s) < Cardinality(s)
=============================================================================
