------------------------------ MODULE SeedsPool -----------------------------
(***************************************************************************)
(* The pool of seeds: one queue for each number of boundary faces and a    *)
(* current level.  kind is "B" (boundary priority) or "N" (neighbourhood   *)
(* priority); one tells whether the initialization takes one cell only.    *)
(* A pool is [q : 0..3 -> Seq(Cells), top : -1..3]; -1 means no level.     *)
(***************************************************************************)
EXTENDS Mesh

Levels == 0..3
EmptyPool == [q |-> [l \in Levels |-> <<>>], top |-> -1]

PoolIsEmpty(p) == \A l \in Levels : p.q[l] = <<>>

HighestFree(m, free) == IF free = {} THEN -1 ELSE MaxOf({Bnd(m, c) : c \in free})

(* Initialization: all the cells reaching the level (the largest number of *)
(* boundary faces if no level is set), agglomerated or not, or only the    *)
(* first of them                                                           *)
PoolInit(m, one, p) ==
  IF m.n = 0 THEN p
  ELSE LET top == IF p.top >= 0 THEN p.top ELSE HighestFree(m, Cells(m))
           all == SortCells(m, {c \in Cells(m) : Bnd(m, c) >= top})
           add == IF one THEN SubSeq(all, 1, 1) ELSE all
       IN  [q |-> [p.q EXCEPT ![top] = @ \o add], top |-> top]

PoolSetTop(p, top) == [p EXCEPT !.top = top]

(* Level of the queue where a cell is put *)
PutLevel(m, kind, p, c) ==
  IF kind = "N" /\ p.top >= 0 THEN Min2(Bnd(m, c), p.top) ELSE Bnd(m, c)

RECURSIVE Put(_, _, _, _)
Put(m, kind, p, s) ==
  IF s = <<>> THEN p
  ELSE Put(m, kind,
           [p EXCEPT !.q[PutLevel(m, kind, p, Head(s))] = Append(@, Head(s))],
           Tail(s))

RaiseTop(m, kind, p, S) ==
  IF kind = "B" /\ S # {} /\ HighestFree(m, S) > p.top
  THEN [p EXCEPT !.top = HighestFree(m, S)] ELSE p

(* Cells entering in the given order *)
PoolUpdate(m, kind, p, s) ==
  RaiseTop(m, kind, Put(m, kind, p, s), {s[k] : k \in DOMAIN s})

(* Cells entering by decreasing boundary faces, then in the usual order *)
OrderedSeeds(m, S) ==
  SortSeq(SetToSeq(S),
          LAMBDA a, b : \/ Bnd(m, a) > Bnd(m, b)
                        \/ Bnd(m, a) = Bnd(m, b) /\ Before(m, a, b))

PoolUpdateOrdered(m, kind, p, S) == PoolUpdate(m, kind, p, OrderedSeeds(m, S))

RECURSIVE DropTaken(_, _)
DropTaken(s, free) ==
  IF s = <<>> \/ Head(s) \in free THEN s ELSE DropTaken(Tail(s), free)

(* Take the first free cell of a queue: [p, seed], seed = 0 if none *)
Spoil(p, l, free) ==
  LET s == DropTaken(p.q[l], free)
  IN  IF s = <<>> THEN [p |-> [p EXCEPT !.q[l] = <<>>], seed |-> 0]
      ELSE [p |-> [p EXCEPT !.q[l] = Tail(s)], seed |-> Head(s)]

(* No free cell is waiting: restart from those with most boundary faces *)
Refill(m, p, free) ==
  IF free = {} THEN [p |-> [p EXCEPT !.top = -1], seed |-> 0]
  ELSE LET l  == HighestFree(m, free)
           sp == Spoil([p EXCEPT !.top = l], l, free)
       IN  IF sp.seed # 0 THEN sp
           ELSE LET s == SortCells(m, {c \in free : Bnd(m, c) = l})
                IN  [p |-> [sp.p EXCEPT !.q[l] = Tail(s)], seed |-> Head(s)]

RECURSIVE SpoilDown(_, _, _)
SpoilDown(p, l, free) ==
  IF l < 0 THEN [p |-> p, seed |-> 0]
  ELSE LET sp == Spoil(p, l, free)
       IN  IF sp.seed # 0 THEN [sp EXCEPT !.p.top = l]
           ELSE SpoilDown(sp.p, l - 1, free)

PoolChoose(m, kind, p, free) ==
  IF p.top < 0 THEN [p |-> p, seed |-> 0]
  ELSE LET sp == IF kind = "B" THEN Spoil(p, p.top, free)
                 ELSE SpoilDown(p, p.top, free)
       IN  IF sp.seed # 0 THEN sp ELSE Refill(m, sp.p, free)

(* Whether an initialization is needed: [p, need] *)
PoolNeedInit(m, kind, p, free) ==
  IF PoolIsEmpty(p) \/ p.top < 0 THEN [p |-> p, need |-> TRUE]
  ELSE IF kind = "B" /\ HighestFree(m, free) > p.top
       THEN [p |-> [p EXCEPT !.top = HighestFree(m, free)], need |-> TRUE]
       ELSE [p |-> p, need |-> FALSE]
=============================================================================
