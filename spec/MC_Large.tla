------------------------------ MODULE MC_Large ------------------------------
(***************************************************************************)
(* The local definitions of Large are those of the other modules, on all   *)
(* the graphs with up to N cells.  One state for each graph and function   *)
(* (a result, distances), without steps.                                   *)
(***************************************************************************)
EXTENDS Large

CONSTANTS N

RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>>
                     ELSE LET x == MinOf(S) IN <<x>> \o SetToSortedSeq(S \ {x})

Edges(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}

MeshOf(n, E) ==
  LET nb(x) == {y \in 1..n : <<x, y>> \in E \/ <<y, x>> \in E}
  IN  [n |-> n, dim |-> 2, adj |-> [x \in 1..n |-> SetToSortedSeq(nb(x))],
       w |-> [x \in 1..n |-> [k \in 1..Cardinality(nb(x)) |-> x + k]],
       vol |-> [x \in 1..n |-> x], cen |-> [x \in 1..n |-> <<x, 2 * x>>],
       prio |-> [x \in 1..n |-> x % 2], bnd |-> [x \in 1..n |-> x % 3]]

VARIABLES m, f

Init == \E n \in 1..N : \E E \in SUBSET Edges(n) :
          /\ m = MeshOf(n, E)
          /\ f \in [1..n -> -1..(n - 1)]
Spec == Init /\ [][FALSE]_<<m, f>>

(* The witnesses, as computed by the harness *)
Ls(g) == [k \in 1..(1 + MaxOf({0} \cup {g[x] : x \in DOMAIN g})) |->
            SetToSortedSeq({x \in DOMAIN g : g[x] = k - 1})]
At(g) == [x \in DOMAIN g |-> Cardinality({y \in DOMAIN g : y <= x /\ g[y] = g[x]})]

PartitionListed == Listing(m.n, f, Ls(f), At(f)) <=> IsPartition(m, f)

(* No other list will do *)
Lists == {<<>>} \cup {<<x>> : x \in 0..2} \cup {<<x, y>> : x \in 0..2, y \in 0..2}
NoOtherListing ==
  m.n = 2 => \A a \in Lists, b \in Lists, at \in [1..2 -> 0..2] :
    \A ls \in {<<a>>, <<a, b>>} : Listing(2, f, ls, at) => IsPartition(m, f)

SameConnection ==
  IsPartition(m, f) =>
    /\ EachConnected(m, Ls(f)) <=> \A id \in 0..(NbCC(f) - 1) : Connected(m, CCof(f, id))
    /\ CoarseByListing(m, f, Ls(f)) = CoarseMesh(m, f)

OneSolution == \A wall \in SUBSET Cells(m) : WallEquations(m, wall, f) <=> (f = WallDistance(m, wall))

SameConnectivity == WallEquations(m, {1}, f) => (ConnectedBy(m, f) <=> Connected(m, Cells(m)))

(* f as a list of cells, from the first positive ones *)
OneFilter ==
  \A allowed \in SUBSET (0..4) :
    LET cs == SelectSeq(f, LAMBDA x : x > 0)
    IN  /\ FilterEquations(m, allowed, cs) <=> (cs = Filter(m, allowed))
        /\ FilterEquations(m, allowed, Filter(m, allowed))
=============================================================================
