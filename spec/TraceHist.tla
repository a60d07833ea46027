----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Histories of operations on the parts of the library: one state for each *)
(* operation.  Records have t = "pool", "nbh", "cont", "feat" or "sub",    *)
(* a mesh m, operations ops and the answers ans.                           *)
(*  pool: kind, one; ops [op, arg] with op init, choose (arg 1: the seed   *)
(*        is agglomerated), update, ordered, settop, need, taken           *)
(*  nbh:  kind, allowed; ops [op, who, cell, nbs] with op add, copy, get   *)
(*  cont: thr; ops [op, cpt, cells] with op iso, aniso, late, flush,       *)
(*        correct                                                          *)
(*  feat: ar, seq: the aspect ratio and features after each addition       *)
(*  sub:  ops [op, cells] with op new, add, addall, del                    *)
(***************************************************************************)
EXTENDS SeedsPool, Growth, Container, Subgraphs, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.DATA)

VARIABLES i, k, s, free, err

hvars == <<i, k, s, free, err>>
R  == Data[i]
Op == R.ops[k + 1]
A  == R.ans[k + 1]

First(r) ==
  CASE r.t = "pool" -> EmptyPool
    [] r.t = "nbh"  -> <<NbhNew(r.kind, ToSet(r.allowed))>>
    [] r.t = "cont" -> NoCells
    [] r.t = "feat" -> {r.seq[1]}
    [] r.t = "sub"  -> {}

Init == /\ i \in 1..Len(Data)
        /\ k = 0
        /\ s = First(Data[i])
        /\ free = Cells(Data[i].m)
        /\ err = IF Data[i].st = "ok" THEN "" ELSE Data[i].st

Next1(news, newfree, ok) ==
  /\ s' = news /\ free' = newfree
  /\ err' = IF ok THEN "" ELSE "answer"

(*--------------------------------- pool ----------------------------------*)
PoolStep ==
  CASE Op.op = "init"    -> Next1(PoolInit(R.m, R.one, s), free, TRUE)
    [] Op.op = "update"  -> Next1(PoolUpdate(R.m, R.kind, s, Op.arg), free, TRUE)
    [] Op.op = "ordered" -> Next1(PoolUpdateOrdered(R.m, R.kind, s, ToSet(Op.arg)), free, TRUE)
    [] Op.op = "settop"  -> Next1(PoolSetTop(s, Op.arg[1]), free, TRUE)
    [] Op.op = "taken"   -> Next1(s, free \ ToSet(Op.arg), TRUE)
    [] Op.op = "need"    -> LET nd == PoolNeedInit(R.m, R.kind, s, free)
                            IN  Next1(nd.p, free, A = IF nd.need THEN 1 ELSE 0)
    [] Op.op = "choose"  -> LET ch == PoolChoose(R.m, R.kind, s, free)
                            IN  Next1(ch.p, IF Op.arg[1] = 1 THEN free \ {ch.seed} ELSE free,
                                      A = ch.seed)

(*----------------------------- neighbourhood -----------------------------*)
NbhStep ==
  LET w  == Op.who
      s1 == CASE Op.op = "add"  -> [s EXCEPT ![w] = NbhAdd(R.m, @, Op.cell, ToSet(Op.nbs))]
              [] Op.op = "copy" -> Append(s, s[w])
              [] OTHER          -> s
  IN  Next1(s1, free, A = NbhCandidates(R.m, s1[w]))

(*------------------------------- container -------------------------------*)
(* The whole content after the operation *)
SameRecord(t) ==
  LET f == MapOf(R.m, t)
  IN  /\ A.n = Len(t.ccs)
      /\ A.nagg = Cardinality(Taken(t))
      /\ A.f2c = f
      /\ A.flag = [x \in Cells(R.m) |-> IF x \in Taken(t) THEN 1 ELSE 0]
      /\ Len(A.ccs) = Len(t.ccs)
      /\ \A j \in DOMAIN A.ccs :
           /\ A.ccs[j].id \in 0..(Len(t.ccs) - 1)
           /\ LET e == t.ccs[A.ccs[j].id + 1]
              IN  /\ ToSet(A.ccs[j].cells) = e.cells
                  /\ A.ccs[j].card = Cardinality(e.cells)
                  /\ A.ccs[j].cpt = e.cpt
                  /\ A.ccs[j].iso = e.iso
      /\ {A.ccs[j].id : j \in DOMAIN A.ccs} = 0..(Len(t.ccs) - 1)

ContStep ==
  LET S  == ToSet(Op.cells)
      s1 == CASE Op.op = "iso"   -> CreateIso(s, S, Op.cpt)
              [] Op.op = "aniso" -> CreateAniso(s, S, Op.cpt)
              [] Op.op = "late"  -> CreateLate(s, S, Op.cpt)
              [] OTHER           -> Flush(s)
  IN  IF Op.op = "correct"
      THEN LET T == {t \in Correct(R.m, s, R.thr) : SameRecord(t)}
           IN  IF T # {} THEN Next1(CHOOSE t \in T : TRUE, free, TRUE)
               ELSE Next1(s, free, FALSE)
      ELSE Next1(s1, free, /\ SameRecord(s1)
                           /\ Op.op \in {"iso", "aniso"} => A.newid = Len(s.ccs))

(*-------------------------------- features -------------------------------*)
(* The value lies between lo and hi, both over 10^4 to the power q *)
RECURSIVE Shifted(_, _)
Shifted(b, q) == IF q = 0 THEN b ELSE <<0>> \o Shifted(b, q - 1)
Within(r, x) ==
  IF r[1] = <<0>> THEN x.zero
  ELSE /\ ~x.zero
       /\ x.ok
       /\ ~BigLess(BigMul(Shifted(r[1], x.q), <<1>>), BigMul(x.lo, r[2]))
       /\ ~BigLess(BigMul(x.hi, r[2]), BigMul(Shifted(r[1], x.q), <<1>>))

FeatOk(S, x) ==
  LET t == R.ar
  IN  /\ A.sh = Shared(R.m, x, S \ {x})
      /\ A.meas = Measure(R.m, S)
      /\ A.nint = InternalFaces(R.m, S)
      /\ t \in {0, 1, 2} => A.diam = SqDiam(R.m, S)
      /\ t = 1 => A.edge = SqMinEdge(R.m, S)
      /\ t \in {4, 5, 6, 9} => /\ A.ext = ExternalWeights(R.m, S)
                               /\ A.int = InternalWeights(R.m, S)
      /\ t \in {7, 8} => A.sum = SumCenters(R.m, S)
      /\ t = 8 => \A j \in 1..(k + 2) : A.fac[j] = ExternalFacets(R.m, R.seq[j], S)
      /\ Within(AR(R.m, t, S), A.ar)

FeatStep == LET x  == R.seq[k + 2]
                S  == s \cup {x}
            IN  Next1(S, free, FeatOk(S, x))

(*------------------------- graph of a coarse cell ------------------------*)
SameGraph(S) ==
  LET g == InducedGraph(R.m, S)
  IN  /\ A.sizes
      /\ Len(A.cells) = Cardinality(S)
      /\ ToSet(A.cells) = S
      /\ A.card = Cardinality(S)
      /\ A.cpt = SubCompactness(R.m, S)
      /\ A.conn = SubConnected(R.m, S)
      /\ \A j \in DOMAIN A.base :
           /\ ToSet(A.base[j].cells) = S
           /\ Len(A.base[j].cells) = Cardinality(S)
           /\ A.base[j].card = Cardinality(S)
           /\ A.base[j].cpt = SubCompactness(R.m, S)
      /\ \A j \in DOMAIN A.cells :
           LET x == A.cells[j]
           IN  /\ A.vol[j] = R.m.vol[x]
               /\ Len(A.nb[j]) = Cardinality(g[x])
               /\ {<<A.nb[j][q], A.w[j][q]>> : q \in DOMAIN A.nb[j]} = g[x]

SubStep ==
  LET S  == ToSet(Op.cells)
      s1 == CASE Op.op = "new" -> SubNew(S)
              [] Op.op = "del" -> SubDel(s, Op.cells[1])
              [] OTHER         -> SubAdd(s, S)
  IN  Next1(s1, free, SameGraph(s1))

Next == /\ err = ""
        /\ k < Len(R.ops)
        /\ k' = k + 1
        /\ i' = i
        /\ CASE R.t = "pool" -> PoolStep
             [] R.t = "nbh"  -> NbhStep
             [] R.t = "cont" -> ContStep
             [] R.t = "feat" -> FeatStep
             [] R.t = "sub"  -> SubStep

HSpec == Init /\ [][Next]_hvars

Conforms == err = ""

(* While something is free a pool with a level hands out a seed *)
PoolServes ==
  (R.t = "pool" /\ err = "" /\ s.top >= 0) =>
    LET ch == PoolChoose(R.m, R.kind, s, free)
    IN  IF free = {} THEN ch.seed = 0 ELSE ch.seed \in free
=============================================================================
