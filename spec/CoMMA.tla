-------------------------------- MODULE CoMMA -------------------------------
(***************************************************************************)
(* One level of agglomeration, as a state machine.  The steps are those of *)
(* the library: anisotropic lines are built (or taken), agglomerated one   *)
(* coarse cell at a time, the pool of seeds is set up, isotropic coarse    *)
(* cells are grown one after the other, singular ones are corrected.       *)
(*                                                                         *)
(* A request is a mesh m and a record c:                                   *)
(*   kind "B"|"N", one          seeds pool                                 *)
(*   goal, min, max, ar, nb     growth (see Growth)                        *)
(*   corr, sing                 correction and singular threshold          *)
(*   aniso, build, lines        anisotropy; lines provided if not built    *)
(*   odd, maxc, thr, comp, coup, force     see Lines                       *)
(***************************************************************************)
EXTENDS SeedsPool, Growth, Lines, Correction

LineParams(c) ==
  [comp |-> {c.comp[k] : k \in DOMAIN c.comp}, thr |-> c.thr, coup |-> c.coup,
   force |-> c.force, odd |-> c.odd, maxc |-> c.maxc]

(* Anisotropy is switched off when lines are missing *)
LinesGiven(c) == Len(c.lines) >= 1 /\ FlattenSeq(c.lines) # <<>>
AnisoOn(c)    == c.aniso /\ (c.build \/ LinesGiven(c))

(* Possible fine lines *)
FineLines(m, c) ==
  IF ~AnisoOn(c) THEN {<<>>}
  ELSE IF c.build THEN BuildLines(m, LineParams(c))
  ELSE {Usable(c.lines)}

PairsOf(m, c, lines) == AllPairs(m, LineParams(c), lines)

(* Anisotropic coarse cells, in order of creation *)
AnisoCCs(pairs) == LET s == FlattenSeq(pairs)
                   IN  [k \in DOMAIN s |-> {s[k][j] : j \in DOMAIN s[k]}]

(* Neighbours of the anisotropic coarse cells, in order of creation *)
AnisoNeighbours(m, pairs) ==
  LET s == FlattenSeq(pairs)
  IN  FlattenSeq([k \in DOMAIN s |->
        FlattenSeq([j \in DOMAIN s[k] |-> m.adj[s[k][j]]])])

(* The pool when the isotropic agglomeration starts *)
FirstPool(m, c, pairs, free, useLines) ==
  IF ~useLines THEN PoolInit(m, c.one, EmptyPool)
  ELSE LET s  == SelectSeq(AnisoNeighbours(m, pairs), LAMBDA x : x \in free)
           p1 == IF s = <<>> THEN EmptyPool
                 ELSE PoolUpdate(m, c.kind,
                        PoolSetTop(EmptyPool, Bnd(m, s[1])), s)
           nd == PoolNeedInit(m, c.kind, p1, free)
       IN  IF nd.need THEN PoolInit(m, c.one, nd.p) ELSE nd.p

(* The pool after coarse cell cc was grown from seed: its free neighbours, *)
(* closest to the seed first, then those out of the search                 *)
PoolAfter(m, c, p, free, seed, cc) ==
  LET d    == Orders(m, c, free, seed)
      nbs  == (NbOfSet(m, cc) \cap free) \ cc
      in   == nbs \cap DOMAIN d
      RECURSIVE Go(_, _)
      Go(q, S) == IF S = {} THEN q
                  ELSE LET o == MinOf({d[x] : x \in S})
                           T == {x \in S : d[x] = o}
                       IN  Go(PoolUpdateOrdered(m, c.kind, q, T), S \ T)
      q1   == Go(p, in)
  IN  IF nbs = in THEN q1 ELSE PoolUpdateOrdered(m, c.kind, q1, nbs \ in)

(* Singular threshold in use *)
SingThr(c) == IF c.sing >= c.min THEN c.min - 1 ELSE c.sing

(*----------------------------- state machine -----------------------------*)
VARIABLES m, c, phase, lines, pairs, todo, ccs, na, free, pool, out

vars == <<m, c, phase, lines, pairs, todo, ccs, na, free, pool, out>>

Request(mm, cc) ==
  /\ m = mm /\ c = cc /\ phase = "lines"
  /\ lines = <<>> /\ pairs = <<>> /\ todo = <<>>
  /\ ccs = <<>> /\ na = 0 /\ free = Cells(mm)
  /\ pool = EmptyPool /\ out = <<>>

FindLines ==
  /\ phase = "lines"
  /\ lines' \in FineLines(m, c)
  /\ pairs' = PairsOf(m, c, lines')
  /\ todo'  = AnisoCCs(pairs')
  /\ phase' = "aniso"
  /\ UNCHANGED <<m, c, ccs, na, free, pool, out>>

CreateAnisotropic ==
  /\ phase = "aniso" /\ todo # <<>>
  /\ ccs'  = Append(ccs, Head(todo))
  /\ na'   = na + 1
  /\ free' = free \ Head(todo)
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<m, c, phase, lines, pairs, pool, out>>

StartPool ==
  /\ phase = "aniso" /\ todo = <<>>
  /\ pool'  = FirstPool(m, c, pairs, free, lines # <<>>)
  /\ phase' = "iso"
  /\ UNCHANGED <<m, c, lines, pairs, todo, ccs, na, free, out>>

NextSeed == PoolChoose(m, c.kind, pool, free)

(* One of the coarse cells that may grow from the next seed *)
CreateCell(S) ==
  /\ ccs'  = Append(ccs, S)
  /\ free' = free \ S
  /\ LET ch == NextSeed IN pool' = PoolAfter(m, c, ch.p, free, ch.seed, S)
  /\ UNCHANGED <<m, c, phase, lines, pairs, todo, na, out>>

CreateIsotropic ==
  /\ phase = "iso" /\ free # {}
  /\ NextSeed.seed # 0
  /\ \E S \in Grow(m, c, free, NextSeed.seed) : CreateCell(S)

Finish ==
  /\ phase = "iso" /\ free = {}
  /\ LET ids == [i \in 0..(Len(ccs) - 1) |-> ccs[i + 1]]
     IN  out' \in {ToF2C(m, x) : x \in IF c.corr
                                      THEN CorrectionOutcomes(m, ids, na, SingThr(c))
                                      ELSE {ids}}
  /\ phase' = "done"
  /\ UNCHANGED <<m, c, lines, pairs, todo, ccs, na, free, pool>>

Done == phase = "done" /\ UNCHANGED vars

Agglomerate == \/ FindLines \/ CreateAnisotropic \/ StartPool
               \/ CreateIsotropic \/ Finish \/ Done

(*------------------- properties of the documented algorithm --------------*)
Nonempty  == \A k \in DOMAIN ccs : ccs[k] # {}
Disjoint  == \A j, k \in DOMAIN ccs : j # k => ccs[j] \cap ccs[k] = {}
Covering  == free = Cells(m) \ UNION {ccs[k] : k \in DOMAIN ccs}
Partition == Nonempty /\ Disjoint /\ Covering
DonePartition == phase = "done" => IsPartition(m, out)

AllConnected == \A k \in DOMAIN ccs : Connected(m, ccs[k])
DoneConnected ==
  phase = "done" => \A i \in {out[x] : x \in DOMAIN out} : Connected(m, CCof(out, i))

(* Cells adjacent to ccs[k], apart from itself, created before *)
SurroundedByOlder(k) ==
  NbOfSet(m, ccs[k]) \subseteq UNION {ccs[j] : j \in 1..k}

Cardinalities ==
  \A k \in DOMAIN ccs :
    IF k <= na THEN Cardinality(ccs[k]) \in {2, 3}
    ELSE /\ Cardinality(ccs[k]) <= c.max
         /\ Cardinality(ccs[k]) < c.min => SurroundedByOlder(k)

(* With boundary priority, the seed has most boundary faces among the free *)
SeedOnHighestLevel ==
  phase = "iso" /\ free # {} =>
    LET ch == PoolChoose(m, c.kind, pool, free)
    IN  /\ ch.seed \in free
        /\ c.kind = "B" => Bnd(m, ch.seed) = HighestFree(m, free)

(* No coarse line is lost, coarse cells of lines come first and lines are  *)
(* made of consecutive adjacent coarse cells                               *)
CoarseLines == Number(pairs, 0)
LinesMadeOfPairs ==
  phase \in {"iso", "done"} =>
    /\ na = Len(FlattenSeq(CoarseLines))
    /\ FlattenSeq(CoarseLines) = [k \in 1..na |-> k - 1]
    /\ c.build => \A j \in DOMAIN CoarseLines : \A k \in 1..(Len(CoarseLines[j]) - 1) :
         LET a == ccs[CoarseLines[j][k] + 1]
             b == ccs[CoarseLines[j][k + 1] + 1]
         IN  NbOfSet(m, a) \cap b # {}

(* The correction never touches anisotropic coarse cells, keeps the order  *)
(* and leaves singular ones only if they have no isotropic neighbour       *)
CorrectionSound ==
  phase = "done" /\ c.corr =>
    /\ \A k \in 1..na : CCof(out, k - 1) = ccs[k]
    /\ \A i \in {out[x] : x \in DOMAIN out} :
         LET S == CCof(out, i)
         IN  (i >= na /\ Cardinality(S) <= SingThr(c)) =>
               \A x \in NbOfSet(m, S) \ S : out[x] < na

(* Something is achieved at each step: the algorithm terminates *)
Measure0 == Cardinality(free) * 8
            + (CASE phase = "lines" -> 4 [] phase = "aniso" -> 3
                 [] phase = "iso" -> 2 [] OTHER -> 1)
Progress == [][phase # "done" => Measure0' < Measure0]_vars
=============================================================================
