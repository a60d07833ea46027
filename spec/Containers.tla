----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The general containers that come with the library: a queue, a map that  *)
(* can be read both ways, pairs ordered by decreasing first element and a  *)
(* tree of a root, its sons and their sons.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == -1

(*--------------------------------- queue ---------------------------------*)
QTop(q)     == IF q = <<>> THEN None ELSE Head(q)
QPush(q, x) == Append(q, x)
QPop(q)     == IF q = <<>> THEN q ELSE Tail(q)

(*------------------------- map readable both ways ------------------------*)
Lefts(b)  == {e[1] : e \in b}
Rights(b) == {e[2] : e \in b}
OneToOne(b) == Cardinality(Lefts(b)) = Cardinality(b) /\ Cardinality(Rights(b)) = Cardinality(b)
BInsert(b, l, r)  == b \cup {<<l, r>>}
BRenameL(b, x, y) == {<<IF e[1] = x THEN y ELSE e[1], e[2]>> : e \in b}
BRenameR(b, x, y) == {<<e[1], IF e[2] = x THEN y ELSE e[2]>> : e \in b}
BErase(b, l)      == {e \in b : e[1] # l}

(*--------------------------------- pairs ---------------------------------*)
PairLess(p, q) == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
PairsInOrder(S) == SetToSortSeq(S, PairLess)

(*---------------------------------- tree ---------------------------------*)
(* The sons of the root from left to right: [i, v, sons], sons as [i, v]   *)
TInsert(t, i, v) == Append(t, [i |-> i, v |-> v, sons |-> <<>>])
TInsertUnder(t, f, i, v) ==
  [k \in DOMAIN t |-> IF t[k].i = f THEN [t[k] EXCEPT !.sons = Append(@, [i |-> i, v |-> v])]
                      ELSE t[k]]
TDelete(t, i) == SelectSeq(t, LAMBDA e : e.i # i)
TSons(t) == {t[k].i : k \in DOMAIN t}
=============================================================================
