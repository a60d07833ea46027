------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* Growth of one isotropic coarse cell from its seed.  Parameters:         *)
(*   p.goal, p.min, p.max cardinalities, p.ar aspect ratio type,           *)
(*   p.nb neighbourhood type, p.iter look-ahead (1: none).                 *)
(***************************************************************************)
EXTENDS Features, Neighbourhood

(* Distance from the seed, in faces, through free cells.  The search goes  *)
(* on for a fixed number of layers and, if necessary, until enough cells   *)
(* for the maximum cardinality are found.                                  *)
SearchDepth(m, p) == Max2(IF m.dim = 2 THEN 2 ELSE 3, p.max \div m.dim)

RECURSIVE OrdersFrom(_, _, _, _, _, _)
OrdersFrom(m, p, free, d, front, o) ==
  IF o > SearchDepth(m, p) /\ Cardinality(DOMAIN d) >= p.max THEN d
  ELSE LET nxt == (NbOfSet(m, front) \cap free) \ DOMAIN d
       IN  IF nxt = {} THEN d
           ELSE OrdersFrom(m, p, free, d @@ [c \in nxt |-> o], nxt, o + 1)

Orders(m, p, free, seed) == OrdersFrom(m, p, free, seed :> 0, {seed}, 1)

(* Best candidates: most shared faces, closest to the seed, smallest       *)
(* aspect ratio, first.  A set: more than one only if rounding can decide. *)
BestCells(m, p, d, cc, cands) ==
  LET Sh   == [k \in DOMAIN cands |-> Shared(m, cands[k], cc)]
      sh   == MaxOf({Sh[k] : k \in DOMAIN cands})
      K1   == {k \in DOMAIN cands : Sh[k] = sh}
      o    == MinOf({d[cands[k]] : k \in K1})
      K2   == {k \in K1 : d[cands[k]] = o}
  IN  IF Cardinality(K2) = 1 THEN {cands[CHOOSE k \in K2 : TRUE]}
      ELSE LET ar == [k \in K2 |-> AR(m, p.ar, cc \cup {cands[k]})]
               K3 == {k \in K2 : \A j \in K2 : ~RatioLess(ar[j], ar[k])}
           IN  IF Inexact(p.ar) THEN {cands[k] : k \in K3}
               ELSE {cands[MinOf({k \in K3 : ar[k] = a})] :
                     a \in {ar[k] : k \in K3}}

(* Look-ahead.  The score of a candidate is the largest between the faces  *)
(* it shares with the coarse cell and those shared by the cell that would  *)
(* be added after it, with a look-ahead reduced by one.  Look is the set   *)
(* of the possible choices, with the faces they share: highest score, then *)
(* closest to the seed; the aspect ratio may decide among what is left.    *)
RECURSIVE Look(_, _, _, _, _)
Look(m, d, cc, h, depth) ==
  LET cands == NbhCandSet(m, h)
      own   == [c \in cands |-> Shared(m, c, cc)]
      After(c) ==
        LET x == Look(m, d, cc \cup {c}, NbhAddSet(h, c, Nb(m, c)), depth - 1)
        IN  IF x = {} THEN {0} ELSE {y.own : y \in x}
      scores == [c \in cands |->
                   IF depth = 1 THEN {own[c]}
                   ELSE {Max2(own[c], f) : f \in After(c)}]
      MayWin(c, s) ==
        \A b \in cands \ {c} :
          \E t \in scores[b] : t < s \/ (t = s /\ d[b] >= d[c])
  IN  {[cell |-> c, own |-> own[c]] :
       c \in {c \in cands : \E s \in scores[c] : MayWin(c, s)}}

(* Cells that may be added next; left: how many may still be added *)
NextCells(m, p, d, cc, h, left) ==
  LET depth == Min2(p.iter, left)
  IN  IF depth = 1 THEN BestCells(m, p, d, cc, NbhCandidates(m, h))
      ELSE {x.cell : x \in Look(m, d, cc, h, depth)}

(* External faces as estimated during the growth *)
FacesOf(m, c) == Deg(m, c) + Bnd(m, c) - 1

(* g: [cc, last, nbh, ext, best : [cc, cpt, ext]]; h: g.nbh updated with   *)
(* the last cell.  The state after adding c:                               *)
GrowStep(m, p, maxInd, g, h, c) ==
  LET cc  == g.cc \cup {c}
      sz  == Cardinality(cc)
      ext == g.ext + FacesOf(m, c) - 2 * Shared(m, c, g.cc)
      cpt == Compactness(m, cc)
      b   == g.best
      better == \/ b.cc = {}
                \/ cpt > b.cpt
                \/ cpt = b.cpt /\ ext < b.ext
                \/ /\ cpt = b.cpt
                   /\ ext = b.ext
                   /\ Cardinality(b.cc) # p.goal
      nb  == IF (sz >= p.min \/ sz = maxInd) /\ better
             THEN [cc |-> cc, cpt |-> cpt, ext |-> ext] ELSE b
  IN  [cc |-> cc, last |-> c, nbh |-> h, ext |-> ext, best |-> nb]

RECURSIVE GrowFrom(_, _, _, _, _)
GrowFrom(m, p, d, maxInd, g) ==
  LET left == maxInd - Cardinality(g.cc)
      h    == NbhAdd(m, g.nbh, g.last, Nb(m, g.last))
  IN  IF left <= 0 THEN {g.best.cc}
      ELSE UNION {GrowFrom(m, p, d, maxInd, GrowStep(m, p, maxInd, g, h, c)) :
                  c \in NextCells(m, p, d, g.cc, h, left)}

GrowInit(m, p, d, seed) ==
  [cc |-> {seed}, last |-> seed, nbh |-> NbhNew(p.nb, DOMAIN d \ {seed}),
   ext |-> FacesOf(m, seed), best |-> [cc |-> {}, cpt |-> 0, ext |-> 0]]

(* Possible coarse cells grown from seed; free contains the seed *)
Grow(m, p, free, seed) ==
  LET d == Orders(m, p, free, seed)
      n == Cardinality(DOMAIN d)
  IN  IF n = 1 THEN {{seed}}
      ELSE IF n < p.goal THEN {DOMAIN d}
      ELSE GrowFrom(m, p, d, Min2(p.max, n), GrowInit(m, p, d, seed))

(* S \in Grow(m, p, free, seed), looking only at what may lead to S *)
RECURSIVE LeadsTo(_, _, _, _, _, _)
LeadsTo(m, p, d, maxInd, g, S) ==
  LET size == Cardinality(g.cc)
      h    == NbhAdd(m, g.nbh, g.last, Nb(m, g.last))
  IN  IF size >= maxInd THEN g.best.cc = S
      ELSE IF size <= Cardinality(S) THEN
             /\ g.cc \subseteq S
             /\ \E c \in NextCells(m, p, d, g.cc, h, maxInd - size) :
                  LeadsTo(m, p, d, maxInd, GrowStep(m, p, maxInd, g, h, c), S)
      ELSE /\ g.best.cc = S
           /\ \E c \in NextCells(m, p, d, g.cc, h, maxInd - size) :
                LeadsTo(m, p, d, maxInd, GrowStep(m, p, maxInd, g, h, c), S)

CanGrow(m, p, free, seed, S) ==
  LET d == Orders(m, p, free, seed)
      n == Cardinality(DOMAIN d)
  IN  IF n = 1 THEN S = {seed}
      ELSE IF n < p.goal THEN S = DOMAIN d
      ELSE LeadsTo(m, p, d, Min2(p.max, n), GrowInit(m, p, d, seed), S)
=============================================================================
