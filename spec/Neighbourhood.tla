---------------------------- MODULE Neighbourhood ---------------------------
(***************************************************************************)
(* Candidates to be added to a growing coarse cell.  A neighbourhood is    *)
(*   [kind : 0 (extended) or 1 (pure front), ok : allowed cells,           *)
(*    cc : cells added so far, ext : candidates of the extended type,      *)
(*    fronts : allowed neighbours of each added cell, most recent first]   *)
(***************************************************************************)
EXTENDS Mesh

NbhNew(kind, allowed) ==
  [kind |-> kind, ok |-> allowed, cc |-> {}, ext |-> <<>>, fronts |-> <<>>]

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

NbhAdd(m, h, c, nbs) ==
  LET cc   == h.cc \cup {c}
      new  == (nbs \cap h.ok) \ cc
      old  == Without(h.ext, c)
      fill == SortCells(m, new \ {old[k] : k \in DOMAIN old})
  IN  [h EXCEPT !.cc = cc, !.ext = old \o fill,
                !.fronts = <<new>> \o [k \in DOMAIN h.fronts |-> h.fronts[k] \ {c}]]

RECURSIVE FrontPick(_, _, _)
FrontPick(f, i, j) ==   \* i from the most recent, j from the oldest
  IF i > j THEN {}
  ELSE IF f[i] # {} THEN f[i]
  ELSE IF f[j] # {} THEN f[j]
  ELSE FrontPick(f, i + 1, j - 1)

NbhCandidates(m, h) ==
  IF h.kind = 0 THEN h.ext
  ELSE IF Len(h.fronts) <= m.dim
       THEN SortCells(m, UNION {h.fronts[k] : k \in DOMAIN h.fronts})
       ELSE SortCells(m, FrontPick(h.fronts, 1, Len(h.fronts)))

(* The same without order (the field ext is not kept) *)
NbhAddSet(h, c, nbs) ==
  LET cc == h.cc \cup {c}
  IN  [h EXCEPT !.cc = cc,
                !.fronts = <<(nbs \cap h.ok) \ cc>>
                           \o [k \in DOMAIN h.fronts |-> h.fronts[k] \ {c}]]

NbhCandSet(m, h) ==
  IF h.kind = 0 \/ Len(h.fronts) <= m.dim
  THEN UNION {h.fronts[k] : k \in DOMAIN h.fronts}
  ELSE FrontPick(h.fronts, 1, Len(h.fronts))
=============================================================================
