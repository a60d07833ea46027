----------------------------- MODULE TraceHier -----------------------------
(***************************************************************************)
(* A hierarchy: agglomeration and coarse graph, one after the other, until *)
(* no faces are left (or for at most R.most levels).  Record: m, c and the *)
(* levels, each one with the result of the agglomeration (f2c, lidx,       *)
(* lines) and the coarse graph then built (adj, w, vol, prio, bnd).        *)
(* Every level is compared with the finest mesh, through the composition   *)
(* of the levels.                                                          *)
(***************************************************************************)
EXTENDS Utilities, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i
R == Data[i]

RecInit == i \in 1..Min2(Stride, Len(Data))
RecNext == i + Stride <= Len(Data) /\ i' = i + Stride
RecSpec == RecInit /\ [][RecNext]_i

Lv == R.levels

(* Cells of the mesh of level k, 1 being the given one *)
NbAt(k) == IF k = 1 THEN R.m.n ELSE Len(Lv[k - 1].vol)

Dense(f, n) == /\ Len(f) = n
               /\ ToSet(f) = 0..(MaxOf(ToSet(f)))

Edges(g) == \E a \in DOMAIN g.adj : g.adj[a] # <<>>

RECURSIVE LevelsOk(_, _)
LevelsOk(k, f) ==
  \/ k > Len(Lv)
  \/ /\ Dense(Lv[k].f2c, NbAt(k))
     /\ LET h == IF k = 1 THEN Lv[1].f2c ELSE [x \in DOMAIN f |-> Lv[k].f2c[f[x] + 1]]
            e == CoarseMesh(R.m, h)
            g == Lv[k]
        IN  /\ \A id \in ToSet(h) : Connected(R.m, CCof(h, id))
            /\ g.adj = e.adj
            /\ g.w = e.w
            /\ g.vol = e.vol
            /\ g.prio = e.prio
            /\ g.bnd = e.bnd
            \* there were faces, hence something has been agglomerated
            /\ e.n < NbAt(k)
            /\ ToSet(g.lines) \subseteq 0..(e.n - 1)
            /\ LevelsOk(k + 1, h)

C24 ==
  /\ R.st = "ok"
  /\ LevelsOk(1, <<>>)
  /\ LET left == IF Lv = <<>> THEN Edges(R.m) ELSE Edges(Lv[Len(Lv)])
     IN  left => Len(Lv) = R.most
=============================================================================
