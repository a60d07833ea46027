------------------------------ MODULE MC_Cont ------------------------------
(***************************************************************************)
(* All the ways of filling a container with the cells of the graphs with N *)
(* cells and correcting it; complete histories are printed and replayed on *)
(* the code.                                                               *)
(***************************************************************************)
EXTENDS Container, Json

CONSTANTS N, Thrs, Most

VARIABLES m, thr, s, h, done

cvars == <<m, thr, s, h, done>>

PairsOfCells == {e \in (1..N) \X (1..N) : e[1] < e[2]}
MeshOf(E) ==
  LET nb(x) == {y \in 1..N : <<x, y>> \in E \/ <<y, x>> \in E}
  IN  [n |-> N, dim |-> 2, adj |-> [x \in 1..N |-> SetToSortSeq(nb(x), <)]]

MCInit == /\ \E E \in SUBSET PairsOfCells : m = MeshOf(E)
          /\ thr \in Thrs /\ s = NoCells /\ h = <<>> /\ done = FALSE

Left == Cells(m) \ Taken(s)
Do(op, cpt, S) == h' = Append(h, [op |-> op, cpt |-> cpt, cells |-> SetToSortSeq(S, <)])

(* Only coarse cells with the lowest or the highest cell left, not to      *)
(* explore all the permutations of the same coarse cells                   *)
Pick == {S \in SUBSET Left : /\ S # {}
                             /\ Cardinality(S) <= Most
                             /\ Connected(m, S)
                             /\ MinOf(Left) \in S \/ MaxOf(Left) \in S}

Iso   == \E S \in Pick : /\ s' = CreateIso(s, S, Compactness(m, S))
                         /\ Do("iso", Compactness(m, S), S)
Late  == \E S \in Pick : /\ s' = CreateLate(s, S, Compactness(m, S))
                         /\ Do("late", Compactness(m, S), S)
Aniso == /\ \A k \in DOMAIN s.ccs : ~s.ccs[k].iso
         /\ s.late = <<>>
         /\ \E S \in Pick : /\ Cardinality(S) \in {2, 3}
                            /\ s' = CreateAniso(s, S, 1)
                            /\ Do("aniso", 1, S)

Finish == /\ Left = {}
          /\ s' \in Correct(m, Flush(s), thr)
          /\ h' = h \o (IF s.late = <<>> THEN <<>> ELSE <<[op |-> "flush", cpt |-> 0, cells |-> <<>>]>>)
                    \o <<[op |-> "correct", cpt |-> 0, cells |-> <<>>]>>
          /\ done' = TRUE

MCNext == /\ ~done
          /\ \/ (Iso \/ Late \/ Aniso) /\ UNCHANGED done
             \/ Finish
          /\ UNCHANGED <<m, thr>>

MCSpec == MCInit /\ [][MCNext]_cvars

Record == IF done' THEN PrintT("HIST " \o ToJson([adj |-> m.adj, thr |-> thr, ops |-> h'])) ELSE TRUE

(* What is recorded is a partition of what was given *)
Consistent ==
  /\ \A j, k \in DOMAIN s.ccs : j # k => s.ccs[j].cells \cap s.ccs[k].cells = {}
  /\ done => Taken(s) = Cells(m)
  /\ \A k \in DOMAIN s.ccs : s.ccs[k].cells # {} /\ Connected(m, s.ccs[k].cells)

(* After the correction, small isotropic coarse cells have no neighbour    *)
(* they could have been given to                                           *)
NothingToCorrect ==
  done => \A k \in DOMAIN s.ccs :
            (s.ccs[k].iso /\ Cardinality(s.ccs[k].cells) = 1) =>
              \A y \in NbOfSet(m, s.ccs[k].cells) :
                \E j \in DOMAIN s.ccs : ~s.ccs[j].iso /\ y \in s.ccs[j].cells
=============================================================================
