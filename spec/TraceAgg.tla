------------------------------ MODULE TraceAgg ------------------------------
(***************************************************************************)
(* The results of a call without correction, replayed step by step: the    *)
(* coarse cells are numbered in order of creation, hence they tell the     *)
(* whole history.  Each step of the library must be a step of the          *)
(* specification, entirely ("full") or in part ("seeds": the seed is the   *)
(* right one whatever the growth; "growth": the growth is right whatever   *)
(* the seed).                                                              *)
(* Record: m, c, r as obtained without correction and, for "full", post as *)
(* obtained with the settings c.                                           *)
(***************************************************************************)
EXTENDS Trace

CONSTANT Mode

VARIABLE err

tvars == <<vars, i, err>>

CC(k) == CCof(R.r.f2c, k)
NCC   == NbCC(R.r.f2c)

TInit == /\ i \in 1..Len(Data)
         /\ err = ""
         /\ Request(Data[i].m, Data[i].c)

Fail(e)   == err' = e /\ UNCHANGED <<vars, i>>
Take(A)   == A /\ UNCHANGED <<i, err>>
(* Nothing more to say about this record *)
Leave == /\ phase' = "left"
         /\ UNCHANGED <<m, c, lines, pairs, todo, ccs, na, free, pool, out, i, err>>

(* The lines handed back; empty lines do not count *)
NonEmpty(ls) == SelectSeq(ls, LAMBDA l : l # <<>>)
LinesOf(r)   == IF r.lidx = <<>> THEN <<>> ELSE NonEmpty(FromIndexed(r.lidx, r.lines))

(* Fine lines explaining the coarse cells and the lines handed back *)
Explains(l) ==
  LET ps == PairsOf(m, c, l)
      a  == AnisoCCs(ps)
  IN  /\ Len(a) <= NCC
      /\ \A k \in DOMAIN a : a[k] = CC(k - 1)
      /\ NonEmpty(Number(ps, 0)) = LinesOf(R.r)

Explanations ==
  IF ~AnisoOn(c) THEN {<<>>}
  ELSE IF ~ValidIndexed(R.r.lidx, R.r.lines) THEN {}
  ELSE {l \in FineLines(m, c) : Explains(l)}

TLines ==
  /\ phase = "lines" /\ err = ""
  /\ IF ~(Ok(R.r) /\ IsPartition(m, R.r.f2c))
     THEN IF Mode = "full" THEN Fail("no partition") ELSE Leave
     ELSE LET E == Explanations
          IN  IF E = {}
              THEN IF Mode = "full" THEN Fail("lines") ELSE Leave
              ELSE IF Cardinality({PairsOf(m, c, l) : l \in E}) > 1 THEN Leave
              ELSE Take(FindLines /\ lines' = CHOOSE l \in E : TRUE)

TAniso == phase = "aniso" /\ Take(CreateAnisotropic)
TPool  == phase = "aniso" /\ Take(StartPool)

(* The next coarse cell with its seed *)
SeedOf(S) == PoolChoose(m, c.kind, pool, free)
GrownFrom(S, s) == s \in S /\ CanGrow(m, c, free, s, S)

CreateObserved(S, ch) ==
  /\ ccs'  = Append(ccs, S)
  /\ free' = free \ S
  /\ pool' = IF ch.seed \in S THEN PoolAfter(m, c, ch.p, free, ch.seed, S) ELSE pool
  /\ UNCHANGED <<m, c, phase, lines, pairs, todo, na, out, i, err>>

TIso ==
  /\ phase = "iso" /\ free # {} /\ err = ""
  /\ LET S  == CC(Len(ccs))
         ch == PoolChoose(m, c.kind, pool, free)
     IN  CASE Mode = "seeds" ->
                IF ch.seed \in S THEN CreateObserved(S, ch) ELSE Fail("seed")
           [] Mode = "growth" ->
                IF GrownFrom(S, ch.seed) \/ \E s \in S \ {ch.seed} : GrownFrom(S, s)
                THEN CreateObserved(S, ch) ELSE Fail("growth")
           [] OTHER ->
                IF Len(ccs) < NCC /\ GrownFrom(S, ch.seed)
                THEN Take(CreateCell(S))
                ELSE Fail("coarse cell")

TFinish ==
  /\ phase = "iso" /\ free = {} /\ err = ""
  /\ IF Mode # "full" THEN Leave
     ELSE IF Ok(R.post) /\ ENABLED (Finish /\ out' = R.post.f2c)
             /\ (IF AnisoOn(c) THEN R.post.lidx = R.r.lidx /\ R.post.lines = R.r.lines
                 ELSE TRUE)
     THEN Take(Finish /\ out' = R.post.f2c)
     ELSE Fail("correction")

TNext == TLines \/ TAniso \/ TPool \/ TIso \/ TFinish
TSpec == TInit /\ [][TNext]_tvars

Conforms == err = ""
=============================================================================
