----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* The record of the coarse cells: s.ccs is the sequence of coarse cells   *)
(* [cells, iso, cpt] (identifier = position - 1), s.late those whose       *)
(* creation is delayed.                                                    *)
(***************************************************************************)
EXTENDS Correction

NoCells == [ccs |-> <<>>, late |-> <<>>]

CreateIso(s, S, cpt)   == [s EXCEPT !.ccs = Append(@, [cells |-> S, iso |-> TRUE, cpt |-> cpt])]
CreateAniso(s, S, cpt) == [s EXCEPT !.ccs = Append(@, [cells |-> S, iso |-> FALSE, cpt |-> cpt])]
CreateLate(s, S, cpt)  == [s EXCEPT !.late = Append(@, [cells |-> S, iso |-> TRUE, cpt |-> cpt])]
Flush(s)               == [ccs |-> s.ccs \o s.late, late |-> <<>>]

Taken(s) == UNION {s.ccs[k].cells : k \in DOMAIN s.ccs}
            \cup UNION {s.late[k].cells : k \in DOMAIN s.late}

MapOf(m, s) ==
  [x \in Cells(m) |->
     IF \E k \in DOMAIN s.ccs : x \in s.ccs[k].cells
     THEN (CHOOSE k \in DOMAIN s.ccs : x \in s.ccs[k].cells) - 1 ELSE -1]

(* Correction: possible states.  Anisotropic coarse cells come first, as   *)
(* in the library.                                                         *)
NbAnisoOf(s) == Cardinality({k \in DOMAIN s.ccs : ~s.ccs[k].iso})
Correct(m, s, thr) ==
  {[ccs |-> [k \in 1..Cardinality(DOMAIN x) |->
               [cells |-> x[k - 1], iso |-> k > NbAnisoOf(s),
                cpt |-> IF k <= NbAnisoOf(s) THEN s.ccs[k].cpt
                        ELSE Compactness(m, x[k - 1])]],
    late |-> <<>>] :
   x \in CorrectionOutcomes(m, [k \in 0..(Len(s.ccs) - 1) |-> s.ccs[k + 1].cells],
                            NbAnisoOf(s), thr)}
=============================================================================
