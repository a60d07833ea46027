---------------------------- MODULE TraceStruct ----------------------------
(***************************************************************************)
(* What every result must look like: partition, connection, cardinalities, *)
(* and the correction as a relation between two results.                   *)
(* Record: m, c, r = [st, f2c, lidx, lines] and, for the correction, r as  *)
(* obtained without and post as obtained with the correction.              *)
(***************************************************************************)
EXTENDS Trace

C01 == /\ Ok(R.r)
       /\ IsPartition(R.m, R.r.f2c)

(* Other properties suppose a partition *)
Usual(r) == Ok(r) /\ IsPartition(R.m, r.f2c)

C02 == Usual(R.r) => \A id \in Ids(R.r.f2c) : Connected(R.m, CCof(R.r.f2c, id))

InOneLine(S) == \E k \in DOMAIN R.c.lines :
                  S \subseteq {R.c.lines[k][j] : j \in DOMAIN R.c.lines[k]}

(* A pair or a triple which may come from a line even if not listed *)
MayBeAniso(S) ==
  /\ AnisoOn(R.c)
  /\ Cardinality(S) \in {2, 3}
  /\ R.c.build \/ InOneLine(S)

AnisoIds == IF AnisoOn(R.c) THEN {R.r.lines[k] : k \in DOMAIN R.r.lines} ELSE {}

SurroundedByLower(f2c, id) ==
  LET S == CCof(f2c, id)
  IN  \A x \in NbOfSet(R.m, S) \ S : f2c[x] < id

C03 ==
  Usual(R.r) =>
    \A id \in Ids(R.r.f2c) :
      LET S == CCof(R.r.f2c, id)
      IN  IF id \in AnisoIds THEN Cardinality(S) \in {2, 3}
          ELSE \/ MayBeAniso(S)
               \/ /\ Cardinality(S) <= R.c.max
                  /\ Cardinality(S) < R.c.min => SurroundedByLower(R.r.f2c, id)

C04 ==
  (Usual(R.r) /\ (AnisoOn(R.c) => GoodLines(R.r))) =>
    LET ids == [id \in 0..(NbCC(R.r.f2c) - 1) |-> CCof(R.r.f2c, id)]
    IN  /\ Ok(R.post)
        /\ R.post.f2c \in {ToF2C(R.m, x) :
             x \in CorrectionOutcomes(R.m, ids, NbAniso(R.c, R.r), SingThr(R.c))}

(* The same on coarse cells given to the container: na anisotropic ones *)
C04Given ==
  Usual(R.r) =>
    LET ids == [id \in 0..(NbCC(R.r.f2c) - 1) |-> CCof(R.r.f2c, id)]
    IN  /\ Ok(R.post)
        /\ R.post.f2c \in {ToF2C(R.m, x) :
             x \in CorrectionOutcomes(R.m, ids, R.na, R.thr)}
=============================================================================
