----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Queries to the graph of a mesh.  Record: m, the arguments               *)
(*   set, taken, from, depth, card, p (parameters of the lines)            *)
(* and the answers g.  Cells are numbered from 1.                          *)
(***************************************************************************)
EXTENDS Utilities, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i
R == Data[i]

RecInit == i \in 1..Min2(Stride, Len(Data))
RecNext == i + Stride <= Len(Data) /\ i' = i + Stride
RecSpec == RecInit /\ [][RecNext]_i

M == R.m
G == R.g
S == ToSet(R.set)
P == [R.p EXCEPT !.comp = ToSet(@)]

EachCell ==
  /\ G.nbs = M.adj
  /\ G.ws = M.w
  /\ G.same
  /\ \A c \in Cells(M) :
       /\ G.deg[c] = Deg(M, c)
       /\ G.bnd[c] = M.bnd[c]
       /\ G.tot[c] = Deg(M, c) + M.bnd[c]
       /\ (G.on[c] = 1) <=> (M.bnd[c] > 0)
       /\ (Deg(M, c) > 0 \/ M.bnd[c] = 0) =>
            /\ G.ebw[c] = BndWeight(M, c)
            /\ G.etw[c] = BndWeight(M, c) + SumSeq(M.w[c])

SetOfCells ==
  /\ \A c \in Cells(M) :
       G.cpt[c] = IF c \in S THEN CellCompactness(M, S, c) ELSE -1
  /\ G.mincpt = Compactness(M, S)
  /\ ToSet(G.around) = NbOfSet(M, S) \ (S \cup ToSet(R.taken))

Distances ==
  LET d == Around(M, R.depth, R.card, ToSet(R.taken), ToSet(R.from))
      far == {d[c] : c \in DOMAIN d}
  IN  /\ \A c \in Cells(M) : G.ord[c] = IF c \in DOMAIN d THEN d[c] ELSE -1
      /\ G.depth = 1 + (IF far = {} THEN 0 ELSE MaxOf(far))

Connectivity ==
  \A k \in DOMAIN G.conn : (G.conn[k] = 1) <=> Connected(M, Cells(M))

Tagged ==
  LET A == AnisoCells(M, P)
  IN  /\ G.seeds = SortCells(M, A)
      /\ \A c \in Cells(M) :
           /\ (G.flag[c] = 1) <=> (c \in A)
           /\ G.strong[c] =
                IF c \notin P.comp \/ Deg(M, c) = 0 THEN <<0, 1>> ELSE Strongest(M, P, c)
           /\ P.coup = 1 =>
                G.alt[c] = [k \in DOMAIN M.adj[c] |->
                              IF c \in P.comp THEN SqDist(M, c, M.adj[c][k]) ELSE 0]

(* The graph inside the set, in any order *)
Inside ==
  S # {} =>
    /\ Len(G.smap) = Cardinality(S)
    /\ ToSet(G.smap) = S
    /\ G.scard = Cardinality(S)
    /\ G.scpt = Compactness(M, S)
    /\ (G.sconn = 1) <=> Connected(M, S)
    /\ \A k \in DOMAIN G.smap :
         LET c == G.smap[k]
             F == SelectSeq([j \in DOMAIN M.adj[c] |-> j], LAMBDA j : M.adj[c][j] \in S)
         IN  /\ G.svol[k] = M.vol[c]
             /\ G.snbs[k] = [j \in DOMAIN F |-> M.adj[c][F[j]]]
             /\ G.sws[k] = [j \in DOMAIN F |-> M.w[c][F[j]]]

C23 ==
  /\ G.st = "ok"
  /\ EachCell
  /\ SetOfCells
  /\ Distances
  /\ Connectivity
  /\ Tagged
  /\ Inside
=============================================================================
