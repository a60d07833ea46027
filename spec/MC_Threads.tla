----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* Two agglomerations at the same time, one step of the state machine of   *)
(* CoMMA at a time in any order, on the same mesh: the variables are those *)
(* of two instances, which share nothing but the mesh, never written.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, BndVals, Kinds, Cards, ARs, Sings, LineModes

VARIABLES m, c1, phase1, lines1, pairs1, todo1, ccs1, na1, free1, pool1, out1,
          c2, phase2, lines2, pairs2, todo2, ccs2, na2, free2, pool2, out2

S1 == INSTANCE MC_Small WITH c <- c1, phase <- phase1, lines <- lines1, pairs <- pairs1,
        todo <- todo1, ccs <- ccs1, na <- na1, free <- free1, pool <- pool1, out <- out1
S2 == INSTANCE MC_Small WITH c <- c2, phase <- phase2, lines <- lines2, pairs <- pairs2,
        todo <- todo2, ccs <- ccs2, na <- na2, free <- free2, pool <- pool2, out <- out2

vars1 == <<c1, phase1, lines1, pairs1, todo1, ccs1, na1, free1, pool1, out1>>
vars2 == <<c2, phase2, lines2, pairs2, todo2, ccs2, na2, free2, pool2, out2>>

MCCards == {<<2, 2, 3>>, <<3, 3, 4>>}

(* The same request, or that with the other pool of seeds *)
TInit == /\ S1!MCInit
         /\ \E k \in Kinds : S2!Request(m, [c1 EXCEPT !.kind = k])

TNext == \/ S1!Agglomerate /\ UNCHANGED vars2
         \/ S2!Agglomerate /\ UNCHANGED vars1

TSpec == TInit /\ [][TNext]_<<m, vars1, vars2>>

MeshKept == [][m' = m]_<<m, vars1, vars2>>

EachPartition == S1!DonePartition /\ S2!DonePartition /\ S1!Partition /\ S2!Partition
EachSound == /\ S1!DoneConnected /\ S2!DoneConnected /\ S1!Cardinalities /\ S2!Cardinalities
             /\ S1!CorrectionSound /\ S2!CorrectionSound

(* What one gives does not depend on how far the other is *)
SameAnswer == phase1 = "done" /\ phase2 = "done" /\ c1 = c2 => out1 = out2 /\ ccs1 = ccs2
=============================================================================
