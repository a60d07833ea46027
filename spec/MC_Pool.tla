------------------------------ MODULE MC_Pool ------------------------------
(***************************************************************************)
(* All the histories of a pool of seeds with a few cells, up to a length.  *)
(* Each transition of the specification is printed once, with a history    *)
(* leading to it, and is then replayed on the code.                        *)
(***************************************************************************)
EXTENDS SeedsPool, Json

CONSTANTS N, Bnds, Most, Depth

VARIABLES m, kind, one, s, free, h

pvars == <<m, kind, one, s, free, h>>
view  == <<m, kind, one, s, free>>

Sub(S, n) == {x \in SUBSET S : Cardinality(x) \in 1..n}

MCInit ==
  /\ m \in [n : {N}, dim : {3}, bnd : [1..N -> Bnds],
            prio : {[x \in 1..N |-> 0], [x \in 1..N |-> IF x = N THEN 1 ELSE 0]}]
  /\ kind \in {"B", "N"} /\ one \in BOOLEAN
  /\ s = EmptyPool /\ free = Cells(m) /\ h = <<>>

Do(op, arg) == h' = Append(h, [op |-> op, arg |-> arg])

Started == s.top >= 0

Initialize == s' = PoolInit(m, one, s) /\ Do("init", <<>>) /\ UNCHANGED free
(* As after an agglomeration along lines: the level is that of the first   *)
(* cell, and the pool is initialized if it says it must be                 *)
FromLines  == /\ h = <<>>
              /\ \E l \in Sub(Cells(m), 2) : \E c \in l :
                   LET q  == <<c>> \o SetToSeq(l \ {c})
                       nd == PoolNeedInit(m, kind, PoolUpdate(m, kind, PoolSetTop(s, Bnd(m, c)), q), free)
                       H  == <<[op |-> "settop", arg |-> <<Bnd(m, c)>>],
                               [op |-> "update", arg |-> q], [op |-> "need", arg |-> <<>>]>>
                   IN  IF nd.need
                       THEN /\ s' = PoolInit(m, one, nd.p)
                            /\ h' = Append(H, [op |-> "init", arg |-> <<>>])
                       ELSE s' = nd.p /\ h' = H
              /\ UNCHANGED free
Update     == /\ Started
              /\ \E c \in Cells(m) : /\ s' = PoolUpdate(m, kind, s, <<c>>)
                                     /\ Do("update", <<c>>)
              /\ UNCHANGED free
Ordered    == /\ Started
              /\ \E S \in Sub(Cells(m), 2) : /\ s' = PoolUpdateOrdered(m, kind, s, S)
                                             /\ Do("ordered", SetToSeq(S))
              /\ UNCHANGED free
Take       == /\ \E c \in free : free' = free \ {c} /\ Do("taken", <<c>>)
              /\ UNCHANGED s
Need       == /\ s' = PoolNeedInit(m, kind, s, free).p
              /\ Do("need", <<>>) /\ UNCHANGED free
Choose     == /\ Started
              /\ LET ch == PoolChoose(m, kind, s, free)
                 IN  /\ s' = ch.p
                     /\ free' = free \ {ch.seed}
              /\ Do("choose", <<1>>)

MCNext == /\ Initialize \/ FromLines \/ Update \/ Ordered \/ Take \/ Need \/ Choose
          /\ UNCHANGED <<m, kind, one>>

MCSpec == MCInit /\ [][MCNext]_pvars

Bounded == /\ Len(h) < Depth + (IF h # <<>> /\ h[1].op = "settop" THEN 3 ELSE 0)
           /\ \A l \in Levels : Len(s.q[l]) <= Most

Record == PrintT("HIST " \o ToJson([m |-> m, kind |-> kind, one |-> one, ops |-> h']))

(* A pool with a level serves every free cell before saying there is none *)
RECURSIVE Served(_, _)
Served(p, fr) ==
  IF fr = {} THEN TRUE
  ELSE LET ch == PoolChoose(m, kind, p, fr)
       IN  ch.seed \in fr /\ Served(ch.p, fr \ {ch.seed})
Serves == Started => Served(s, free)

(* With boundary priority no seed is left behind on a higher level *)
HighestFirst ==
  (Started /\ kind = "B" /\ ~PoolNeedInit(m, kind, s, free).need /\ free # {}) =>
    Bnd(m, PoolChoose(m, kind, s, free).seed) = HighestFree(m, free)
=============================================================================
