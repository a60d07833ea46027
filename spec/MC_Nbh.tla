------------------------------- MODULE MC_Nbh -------------------------------
(***************************************************************************)
(* All the ways of assembling a coarse cell from cell 1 on all the graphs  *)
(* with N cells, one candidate at a time; the complete histories are       *)
(* printed and replayed on the code.                                       *)
(***************************************************************************)
EXTENDS Neighbourhood, Json

CONSTANTS N, Dims

VARIABLES m, nb, h

nvars == <<m, nb, h>>

PairsOfCells == {e \in (1..N) \X (1..N) : e[1] < e[2]}
MeshOf(E, d) ==
  [n |-> N, dim |-> d,
   adj |-> [x \in 1..N |-> {y \in 1..N : <<x, y>> \in E \/ <<y, x>> \in E}],
   prio |-> [x \in 1..N |-> IF x = N THEN 1 ELSE 0]]

MCInit ==
  \E E \in SUBSET PairsOfCells : \E d \in Dims : \E k \in {0, 1} :
    /\ m = MeshOf(E, d)
    /\ nb = NbhAdd(m, NbhNew(k, 2..N), 1, m.adj[1])
    /\ h = <<1>>

Cand == NbhCandidates(m, nb)

MCNext == /\ \E j \in DOMAIN Cand :
               /\ nb' = NbhAdd(m, nb, Cand[j], m.adj[Cand[j]])
               /\ h'  = Append(h, Cand[j])
          /\ UNCHANGED m

MCSpec == MCInit /\ [][MCNext]_nvars

Record == IF NbhCandidates(m, nb') = <<>>
         THEN PrintT("HIST " \o ToJson([dim |-> m.dim, adj |-> m.adj, kind |-> nb.kind, add |-> h']))
         ELSE TRUE

(* Candidates are free neighbours, and there are some as long as possible *)
Border == UNION {m.adj[x] : x \in nb.cc} \ nb.cc
Sound == {Cand[j] : j \in DOMAIN Cand} \subseteq Border
Complete == IF nb.kind = 0 \/ Len(nb.fronts) <= m.dim
            THEN {Cand[j] : j \in DOMAIN Cand} = Border
            ELSE (Cand = <<>>) <=> (Border = {})
=============================================================================
