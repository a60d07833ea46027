----------------------------- MODULE TraceGrow -----------------------------
(***************************************************************************)
(* One coarse cell grown from a given seed.  Record: m, c, free, seed, and *)
(* g = [st, cc, cpt] the coarse cell and its compactness.                  *)
(***************************************************************************)
EXTENDS Growth, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i
R == Data[i]

RecInit == i \in 1..Min2(Stride, Len(Data))
RecNext == i + Stride <= Len(Data) /\ i' = i + Stride
RecSpec == RecInit /\ [][RecNext]_i

C10 == /\ R.g.st = "ok"
       /\ CanGrow(R.m, R.c, ToSet(R.free), R.seed, ToSet(R.g.cc))
=============================================================================
