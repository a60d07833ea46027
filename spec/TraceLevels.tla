---------------------------- MODULE TraceLevels ----------------------------
(***************************************************************************)
(* Several levels of agglomeration, the lines and the coarse graph of each *)
(* one being the input of the next one.  Record:                           *)
(*   levels : sequence of [m, c, r] from the finest one; m has n, dim, adj *)
(***************************************************************************)
EXTENDS Trace

CellsOf(l) == {l[j] : j \in DOMAIN l}

(* Sequence without consecutive repetitions *)
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s
            ELSE IF s[1] = s[2] THEN Dedup(Tail(s))
            ELSE <<s[1]>> \o Dedup(Tail(s))

(* Image of a fine line, keeping the coarse cells of lines only *)
Image(f2c, l, n) == Dedup(SelectSeq([j \in DOMAIN l |-> f2c[l[j]]], LAMBDA x : x < n))

LinesOf(r) == IF r.lidx = <<>> THEN <<>> ELSE FromIndexed(r.lidx, r.lines)

LevelOk(L) ==
  /\ Ok(L.r)
  /\ IsPartition(L.m, L.r.f2c)
  /\ AnisoOn(L.c) =>
       LET ls == LinesOf(L.r)
           n  == Len(L.r.lines)
       IN  /\ ValidIndexed(L.r.lidx, L.r.lines)
           \* disjoint, existing, lowest identifiers
           /\ {L.r.lines[k] : k \in DOMAIN L.r.lines} = 0..(n - 1)
           /\ n <= NbCC(L.r.f2c)
           \* consecutive coarse cells are adjacent
           /\ \A k \in DOMAIN ls : \A j \in 1..(Len(ls[k]) - 1) :
                NbOfSet(L.m, CCof(L.r.f2c, ls[k][j])) \cap CCof(L.r.f2c, ls[k][j + 1]) # {}
           \* images of the lines provided
           /\ ~L.c.build =>
                \A k \in DOMAIN ls : ls[k] # <<>> =>
                  \E h \in DOMAIN L.c.lines :
                    LET im == Image(L.r.f2c, L.c.lines[h], n)
                    IN  im = ls[k] \/ im = Reverse(ls[k])
           \* nothing agglomerated, nothing handed back
           /\ (~L.c.build /\ Usable(L.c.lines) = <<>>) => L.r.lines = <<>>

(* Composition with the coarser levels *)
RECURSIVE Compose(_, _, _)
Compose(f, lv, k) ==
  IF k > Len(lv) THEN f
  ELSE Compose([x \in DOMAIN f |-> lv[k].r.f2c[f[x] + 1]], lv, k + 1)

C07 ==
  /\ \A k \in DOMAIN R.levels : LevelOk(R.levels[k])
  /\ LET f == Compose(R.levels[1].r.f2c, R.levels, 2)
     IN  /\ IsPartition(R.levels[1].m, f)
         /\ \A id \in Ids(f) : Connected(R.levels[1].m, CCof(f, id))
=============================================================================
