------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Arguments of a request, whether they are accepted, and when two         *)
(* requests are equivalent.                                                *)
(***************************************************************************)
EXTENDS Mesh

(* a: [dim, goal, min, max, iter, rp, ncol, nw, aniso, build, lidx, nlines,  *)
(*     sing, seeds, ar]                                                    *)
Accepted(a) ==
  /\ a.dim \in {2, 3}
  /\ a.min > 1 /\ a.goal > 1 /\ a.max > 1
  /\ a.min <= a.goal /\ a.goal <= a.max
  /\ a.iter \in 1..4
  /\ Len(a.rp) > 0
  /\ a.rp[Len(a.rp)] = a.ncol
  /\ a.rp[Len(a.rp)] = a.nw
  /\ (a.aniso /\ ~a.build /\ Len(a.lidx) >= 2 /\ a.nlines > 0) =>
       a.lidx[Len(a.lidx)] = a.nlines
  /\ a.sing > 0
  /\ a.seeds \in {0, 1, 10, 11}
  /\ a.ar \in 0..9

(* m2 describes the same mesh as m, cell x being called p[x] *)
SameRatio(a, b, c, d) ==   \* a / b = c / d, all naturals
  IF b = 0 \/ d = 0 THEN b = 0 /\ d = 0 /\ a = 0 /\ c = 0
  ELSE FracEq(a, b, c, d)

WeightBetween(m, x, y) == LET k == CHOOSE k \in DOMAIN m.adj[x] : m.adj[x][k] = y
                          IN  m.w[x][k]

Equivalent(m, m2, p) ==
  /\ m2.n = m.n /\ m2.dim = m.dim
  /\ {p[x] : x \in Cells(m)} = Cells(m)
  /\ \A x \in Cells(m) : Nb(m2, p[x]) = {p[y] : y \in Nb(m, x)}
  /\ \E e \in {<<x, y>> \in Cells(m) \X Cells(m) : y \in Nb(m, x)} \cup {<<0, 0>>} :
       /\ (e = <<0, 0>>) <=> (\A x \in Cells(m) : m.adj[x] = <<>>)
       /\ \A x \in Cells(m) : \A y \in Nb(m, x) :
            SameRatio(WeightBetween(m2, p[x], p[y]), WeightBetween(m, x, y),
                      WeightBetween(m2, p[e[1]], p[e[2]]), WeightBetween(m, e[1], e[2]))
  /\ \A x \in Cells(m) : SameRatio(m2.vol[p[x]], m.vol[x], m2.vol[p[1]], m.vol[1])
  /\ \A x \in Cells(m), y \in Cells(m) : x < y =>
       SameRatio(SqDist(m2, p[x], p[y]), SqDist(m, x, y), SqDist(m2, p[1], p[2]), SqDist(m, 1, 2))
  /\ \A x \in Cells(m), y \in Cells(m) : Before(m, x, y) <=> Before(m2, p[x], p[y])
  /\ \A x \in Cells(m) : Bnd(m2, p[x]) = Bnd(m, x)
=============================================================================
