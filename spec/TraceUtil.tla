----------------------------- MODULE TraceUtil -----------------------------
(***************************************************************************)
(* Answers of the utilities.  Records:                                     *)
(*   m, f2c, g = [st, adj, w, vol, sum, prio, bnd]        coarse graph     *)
(*   m, wall, d = [st, dist]                              wall distance    *)
(*   m, allowed, f = [st, cells]                          filter           *)
(***************************************************************************)
EXTENDS Utilities, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i
R == Data[i]

RecInit == i \in 1..Min2(Stride, Len(Data))
RecNext == i + Stride <= Len(Data) /\ i' = i + Stride
RecSpec == RecInit /\ [][RecNext]_i


C12 ==
  LET e == CoarseMesh(R.m, R.f2c)
  IN  /\ R.g.st = "ok"
      /\ R.g.adj = e.adj
      /\ R.g.w = e.w
      /\ R.g.vol = e.vol
      /\ R.g.sum = e.sum
      /\ R.g.prio = e.prio
      /\ R.g.bnd = e.bnd

C13 ==
  /\ R.d.st = "ok"
  /\ Len(R.d.dist) = R.m.n
  /\ LET e == WallDistance(R.m, ToSet(R.wall))
     IN  /\ \A x \in Cells(R.m) : IF e[x] < 0 THEN R.d.dist[x] < 0 ELSE R.d.dist[x] = e[x]
         /\ WallEquations(R.m, ToSet(R.wall), e)

C14 ==
  /\ R.f.st = "ok"
  /\ R.f.cells = Filter(R.m, ToSet(R.allowed))
=============================================================================
