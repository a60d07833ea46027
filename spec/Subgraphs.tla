----------------------------- MODULE Subgraphs -----------------------------
(***************************************************************************)
(* The graph a coarse cell keeps of its own cells.  Its state is the set   *)
(* of its cells: everything else is induced by the mesh.                   *)
(***************************************************************************)
EXTENDS Mesh

SubNew(S)    == S
SubAdd(s, S) == s \cup S
SubDel(s, x) == s \ {x}

(* Neighbours with the weights of the faces *)
InducedGraph(m, s) ==
  [x \in s |-> {<<m.adj[x][k], m.w[x][k]>> : k \in {k \in DOMAIN m.adj[x] : m.adj[x][k] \in s}}]

SubCompactness(m, s) ==
  IF s = {} THEN 0 ELSE MinOf({Cardinality(InducedGraph(m, s)[x]) : x \in s})

SubConnected(m, s) == Cardinality(s) <= 1 \/ Connected(m, s)
=============================================================================
