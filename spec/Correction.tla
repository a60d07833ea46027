----------------------------- MODULE Correction -----------------------------
(***************************************************************************)
(* Correction of singular coarse cells.  ccs is a function from            *)
(* identifiers to sets of cells; identifiers below na are anisotropic.     *)
(* The cells of a singular coarse cell are moved in no particular order,   *)
(* hence the results are sets of possible outcomes.                        *)
(***************************************************************************)
EXTENDS Mesh

OwnerOf(ccs, c) == CHOOSE i \in DOMAIN ccs : c \in ccs[i]

(* Isotropic coarse cells adjacent to some cells of S, other than id *)
IsoNeighs(m, ccs, na, S, id) ==
  LET N == NbOfSet(m, S)
  IN  {i \in DOMAIN ccs : i # id /\ i >= na /\ ccs[i] \cap N # {}}

Improves(m, ccs, i, S) == Compactness(m, ccs[i] \cup S) > Compactness(m, ccs[i])

(* Receiver of a whole coarse cell, -1 if none *)
WholeReceiver(m, ccs, S, cand) ==
  LET I == {i \in cand : Improves(m, ccs, i, S)}
      Card(i) == Cardinality(ccs[i])
  IN  IF I = {} THEN -1
      ELSE MinOf({i \in I : \A j \in I : Card(i) <= Card(j)})

(* Receiver of one cell *)
CellReceiver(m, ccs, c, cand) ==
  LET I  == {i \in cand : Improves(m, ccs, i, {c})}
      J  == IF I # {} THEN I ELSE cand
      Sh(i) == Shared(m, c, ccs[i])
      Card(i) == Cardinality(ccs[i])
      J1 == {i \in J : \A j \in J : Sh(j) <= Sh(i)}
      J2 == {i \in J1 : \A j \in J1 : Card(i) <= Card(j)}
  IN  IF cand = {} THEN -1 ELSE MinOf(J2)

(* One pass over the cells left in coarse cell id; seen gives the          *)
(* candidates of each cell at the beginning of the pass.  P is a set of    *)
(* pairs: coarse cells and cells still to be considered.                   *)
RECURSIVE Pass(_, _, _, _)
Pass(m, P, id, seen) ==
  IF \A p \in P : p[2] = {} THEN {p[1] : p \in P}
  ELSE Pass(m, UNION {{LET r == CellReceiver(m, p[1], c, seen[c])
                       IN  <<IF r < 0 THEN p[1]
                             ELSE [p[1] EXCEPT ![id] = @ \ {c}, ![r] = @ \cup {c}],
                             p[2] \ {c}>> : c \in p[2]} : p \in P}, id, seen)

RECURSIVE Passes(_, _, _, _)
Passes(m, ccs, na, id) ==
  LET left == ccs[id]
      seen == [c \in left |-> IsoNeighs(m, ccs, na, {c}, id)]
  IN  IF left = {} \/ \A c \in left : seen[c] = {} THEN {ccs}
      ELSE UNION {Passes(m, x, na, id) : x \in Pass(m, {<<ccs, left>>}, id, seen)}

Dissolve(m, ccs, na, id) ==
  LET S == ccs[id]
      r == IF Cardinality(S) > 1
           THEN WholeReceiver(m, ccs, S, IsoNeighs(m, ccs, na, S, id)) ELSE -1
  IN  IF r >= 0 THEN {[ccs EXCEPT ![id] = {}, ![r] = @ \cup S]}
      ELSE Passes(m, ccs, na, id)

(* X is a set of possible coarse cells, all with n identifiers *)
RECURSIVE CorrectFrom(_, _, _, _, _, _, _)
CorrectFrom(m, X, n, na, thr, sing, id) ==
  IF id >= n THEN X
  ELSE IF id \notin sing THEN CorrectFrom(m, X, n, na, thr, sing, id + 1)
  ELSE CorrectFrom(m, UNION {IF Cardinality(x[id]) <= thr THEN Dissolve(m, x, na, id)
                             ELSE {x} : x \in X},
                   n, na, thr, sing, id + 1)

(* Empty coarse cells disappear, the others keep their order *)
Compact(ccs) ==
  LET keep == SortSeq(SetToSeq({i \in DOMAIN ccs : ccs[i] # {}}), <)
  IN  [i \in 0..(Len(keep) - 1) |-> ccs[keep[i + 1]]]

CorrectionOutcomes(m, ccs, na, thr) ==
  LET sing == {i \in DOMAIN ccs : i >= na /\ Cardinality(ccs[i]) <= thr}
  IN  {Compact(x) : x \in CorrectFrom(m, {ccs}, Cardinality(DOMAIN ccs), na, thr, sing, 0)}

ToF2C(m, ccs) == [c \in 1..m.n |-> OwnerOf(ccs, c)]
=============================================================================
