----------------------------- MODULE TraceLarge -----------------------------
(***************************************************************************)
(* Answers on very large meshes, see Large.  Records as in TraceStruct,    *)
(* TraceUtil, TraceHier and TraceGraph, with the witnesses ls and at for   *)
(* partitions (in each level for hierarchies, referred to the finest mesh) *)
(* and dist for connectivity.                                              *)
(***************************************************************************)
EXTENDS Large, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i
R == Data[i]

RecInit == i \in 1..Min2(Stride, Len(Data))
RecNext == i + Stride <= Len(Data) /\ i' = i + Stride
RecSpec == RecInit /\ [][RecNext]_i

C01 == /\ R.r.st = "ok"
       /\ Listing(R.m.n, R.r.f2c, R.ls, R.at)

Usual == R.r.st = "ok" /\ Listing(R.m.n, R.r.f2c, R.ls, R.at)

C02 == Usual => EachConnected(R.m, R.ls)

(* Lines, if any, are built, and their coarse cells are listed *)
C03 ==
  Usual =>
    LET an == ToSet(R.r.lines)
    IN  \A k \in DOMAIN R.ls :
          IF k - 1 \in an THEN Len(R.ls[k]) \in {2, 3}
          ELSE \/ R.c.build /\ Len(R.ls[k]) \in {2, 3}
               \/ /\ Len(R.ls[k]) <= R.c.max
                  /\ Len(R.ls[k]) < R.c.min =>
                       LET S == ToSet(R.ls[k])
                       IN  \A x \in NbOfSet(R.m, S) \ S : R.r.f2c[x] < k - 1

Same(g, e) == /\ g.adj = e.adj
              /\ g.w = e.w
              /\ g.vol = e.vol
              /\ g.prio = e.prio
              /\ g.bnd = e.bnd

C12 ==
  /\ R.g.st = "ok"
  /\ Listing(R.m.n, R.f2c, R.ls, R.at)
  /\ LET e == CoarseByListing(R.m, R.f2c, R.ls)
     IN  Same(R.g, e) /\ R.g.sum = e.sum

C13 ==
  /\ R.d.st = "ok"
  /\ Len(R.d.dist) = R.m.n
  /\ WallEquations(R.m, ToSet(R.wall), R.d.dist)

C14 ==
  /\ R.f.st = "ok"
  /\ FilterEquations(R.m, ToSet(R.allowed), R.f.cells)

C23 ==
  /\ R.g.st = "ok"
  /\ WallEquations(R.m, {1}, R.dist)
  /\ \A k \in DOMAIN R.g.conn : (R.g.conn[k] = 1) <=> ConnectedBy(R.m, R.dist)
  /\ R.g.nbs = R.m.adj
  /\ R.g.ws = R.m.w
  /\ \A x \in Cells(R.m) :
       /\ R.g.deg[x] = Deg(R.m, x)
       /\ R.g.bnd[x] = R.m.bnd[x]
       /\ R.g.tot[x] = Deg(R.m, x) + R.m.bnd[x]

RECURSIVE LevelsOk(_, _, _)
LevelsOk(k, f, n) ==
  \/ k > Len(R.levels)
  \/ LET g == R.levels[k]
         h == IF k = 1 THEN g.f2c ELSE [x \in 1..R.m.n |-> g.f2c[f[x] + 1]]
     IN  /\ Len(g.f2c) = n
         /\ Listing(R.m.n, h, g.ls, g.at)
         /\ EachConnected(R.m, g.ls)
         /\ Same(g, CoarseByListing(R.m, h, g.ls))
         /\ Len(g.ls) < n
         /\ LevelsOk(k + 1, h, Len(g.ls))

C24 ==
  /\ R.st = "ok"
  /\ LevelsOk(1, <<>>, R.m.n)
  /\ R.levels # <<>>
=============================================================================
