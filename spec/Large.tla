------------------------------- MODULE Large -------------------------------
(***************************************************************************)
(* Definitions for meshes of a hundred thousand cells, where sets cannot   *)
(* be searched: the record carries witnesses, which are checked, and the   *)
(* properties become local.  MC_Large checks that they say the same as     *)
(* those used elsewhere.                                                   *)
(***************************************************************************)
EXTENDS Utilities

(* ls lists the cells of each coarse cell and at gives for each cell its   *)
(* position there: a listing exists exactly for partitions.                *)
Listing(n, f2c, ls, at) ==
  /\ Len(f2c) = n
  /\ Len(at) = n
  /\ \A x \in 1..n :
       /\ f2c[x] + 1 \in DOMAIN ls
       /\ at[x] \in DOMAIN ls[f2c[x] + 1]
       /\ ls[f2c[x] + 1][at[x]] = x
  /\ \A k \in DOMAIN ls :
       /\ ls[k] # <<>>
       /\ \A j \in DOMAIN ls[k] :
            /\ ls[k][j] \in 1..n
            /\ f2c[ls[k][j]] = k - 1
            /\ at[ls[k][j]] = j

EachConnected(m, ls) == \A k \in DOMAIN ls : Connected(m, ToSet(ls[k]))

CoarseByListing(m, f2c, ls) ==
  CoarseFrom(m, f2c, Len(ls), LAMBDA id : ToSet(ls[id + 1]))

(* d are the distances from the first cell *)
ConnectedBy(m, d) == \A x \in Cells(m) : d[x] >= 0

(* The only increasing list of the accepted cells *)
FilterEquations(m, allowed, cells) ==
  /\ \A k \in 1..(Len(cells) - 1) : cells[k] < cells[k + 1]
  /\ LET S == ToSet(cells)
     IN  /\ S \subseteq Cells(m)
         /\ \A x \in Cells(m) :
              LET k == Deg(m, x) + m.bnd[x] IN (x \in S) <=> (k > 0 /\ k \in allowed)
=============================================================================
