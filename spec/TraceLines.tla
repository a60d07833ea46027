----------------------------- MODULE TraceLines -----------------------------
(***************************************************************************)
(* Lines.  Record: m, c and                                                *)
(*   o = [st, i0, l0, i1, l1, f2c]  the fine lines, coarse lines and map   *)
(*       (-1 if not agglomerated) given by the anisotropic part alone,     *)
(*   r = [st, f2c, lidx, lines]     the answer to the whole request.       *)
(* Cells are numbered from 0 in o and r.                                   *)
(***************************************************************************)
EXTENDS Trace

P == LineParams(R.c)

Shift(ls) == [k \in DOMAIN ls |-> [j \in DOMAIN ls[k] |-> ls[k][j] + 1]]
Lists(idx, cells) == IF idx = <<>> THEN <<>> ELSE FromIndexed(idx, cells)
CellsOf(l) == {l[j] : j \in DOMAIN l}
NonEmpty(ls) == SelectSeq(ls, LAMBDA l : l # <<>>)

(* Fine lines as observed *)
Fine == Shift(Lists(R.o.i0, R.o.l0))

AllCells(ls) == UNION {CellsOf(ls[k]) : k \in DOMAIN ls}

(* Fine cells of each coarse line handed back *)
Coarse(r) == NonEmpty(Lists(r.lidx, r.lines))
Under(r)  == LET ls == Coarse(r)
             IN  [k \in DOMAIN ls |-> {x \in DOMAIN r.f2c : r.f2c[x] \in CellsOf(ls[k])}]

Comparable(r) == Ok(r) /\ IsPartition(R.m, r.f2c) /\ ValidIndexed(r.lidx, r.lines)

(* The coarse lines of the whole request cover cells of these fine lines *)
Covers(r, ls) ==
  LET u == Under(r)
      e == SelectSeq(ls, LAMBDA l : LinePairs(R.m, P, l) # <<>>)
  IN  /\ Len(u) = Len(e)
      /\ \A k \in DOMAIN u : u[k] \subseteq CellsOf(e[k])

StructureOfLines(ls) ==
  /\ \A k \in DOMAIN ls : /\ Len(ls[k]) > 1
                          /\ Cardinality(CellsOf(ls[k])) = Len(ls[k])
                          /\ \A j \in 1..(Len(ls[k]) - 1) : ls[k][j + 1] \in Nb(R.m, ls[k][j])
  /\ \A j, k \in DOMAIN ls : j # k => CellsOf(ls[j]) \cap CellsOf(ls[k]) = {}

(* Built lines *)
C05 ==
  LET B == BuildLines(R.m, P)
  IN  /\ "o" \in DOMAIN R =>
           /\ Ok(R.o)
           /\ ValidIndexed(R.o.i0, R.o.l0)
           /\ StructureOfLines(Fine)
           /\ Fine \in B
      /\ "r" \in DOMAIN R =>
           /\ Ok(R.r)
           /\ Comparable(R.r) => \E l \in B : Covers(R.r, l)

(* Agglomeration along lines, whatever they are *)
SetsOf(f2c) == {CCof(f2c, id) : id \in {f2c[x] : x \in DOMAIN f2c} \ {-1}}
Expected(ls) == LET a == AnisoCCs(AllPairs(R.m, P, ls)) IN {a[k] : k \in DOMAIN a}

C06 ==
  /\ "o" \in DOMAIN R =>
       /\ Ok(R.o)
       /\ ~R.c.build => Fine = Usable(R.c.lines)
       /\ ValidIndexed(R.o.i0, R.o.l0) => SetsOf(R.o.f2c) = Expected(Fine)
  /\ "r" \in DOMAIN R =>
       /\ Ok(R.r)
       /\ (Comparable(R.r) /\ ~R.c.build /\ AnisoOn(R.c)) =>
            \A S \in Expected(Usable(R.c.lines)) :
              \E id \in Ids(R.r.f2c) : CCof(R.r.f2c, id) = S
       /\ (Comparable(R.r) /\ R.c.build /\ "o" \in DOMAIN R /\ Covers(R.r, Fine)) =>
            \A S \in Expected(Fine) : \E id \in Ids(R.r.f2c) : CCof(R.r.f2c, id) = S
=============================================================================
