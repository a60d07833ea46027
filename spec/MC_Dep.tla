------------------------------- MODULE MC_Dep -------------------------------
(***************************************************************************)
(* All the short histories of the general containers: each two consecutive *)
(* transitions are printed once, with a history leading to them, to be     *)
(* replayed on the code.                                                   *)
(***************************************************************************)
EXTENDS Containers, TLC, Json

CONSTANTS Vals, Depth

VARIABLES t, s, h

dvars == <<t, s, h>>
view  == <<t, s, IF h = <<>> THEN <<>> ELSE h[Len(h)]>>

MCInit == /\ t \in {"queue", "bimap", "tree"}
          /\ s = IF t = "bimap" THEN {} ELSE <<>>
          /\ h = <<>>

Do(op, arg) == h' = Append(h, [op |-> op, arg |-> arg])

QueueNext == \/ \E x \in Vals : s' = QPush(s, x) /\ Do("push", <<x>>)
             \/ s' = QPop(s) /\ Do("pop", <<>>)

BimapNext ==
  \/ \E x \in Vals \ Lefts(s), y \in Vals \ Rights(s) : s' = BInsert(s, x, y) /\ Do("ins", <<x, y>>)
  \/ \E x \in Vals, y \in Vals \ Lefts(s)  : s' = BRenameL(s, x, y) /\ Do("left", <<x, y>>)
  \/ \E x \in Vals, y \in Vals \ Rights(s) : s' = BRenameR(s, x, y) /\ Do("right", <<x, y>>)
  \/ \E x \in Lefts(s) : s' = BErase(s, x) /\ Do("erase", <<x>>)

TreeNext ==
  \/ \E x \in Vals \ TSons(s) : s' = TInsert(s, x, Len(h) + 1) /\ Do("son", <<x, Len(h) + 1>>)
  \/ \E f \in TSons(s) : s' = TInsertUnder(s, f, Len(h), Len(h) + 1)
                         /\ Do("under", <<f, Len(h), Len(h) + 1>>)
  \/ \E x \in Vals : s' = TDelete(s, x) /\ Do("del", <<x>>)

MCNext == /\ Len(h) < Depth
          /\ t' = t
          /\ CASE t = "queue" -> QueueNext
               [] t = "bimap" -> BimapNext
               [] OTHER       -> TreeNext

MCSpec == MCInit /\ [][MCNext]_dvars

Record == PrintT("HIST " \o ToJson([t |-> t, ops |-> h']))

BothWays == t = "bimap" => OneToOne(s)
Distinct == t = "tree" => \A j, k \in DOMAIN s : s[j].i = s[k].i => j = k
=============================================================================
