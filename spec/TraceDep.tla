------------------------------ MODULE TraceDep ------------------------------
(***************************************************************************)
(* Histories of the general containers.  Records have t = "queue",         *)
(* "bimap", "tree" or "pairs"; for the first three operations ops          *)
(* [op, arg] and the answers ans, one state for each operation; for pairs  *)
(* the pairs p, their order o, and the pairs that are less and equal.      *)
(***************************************************************************)
EXTENDS Containers, TLC, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.DATA)

VARIABLES i, k, s, err

hvars == <<i, k, s, err>>
R  == Data[i]
Op == R.ops[k + 1]
A  == R.ans[k + 1]
X  == Op.arg

PairsOk(r) ==
  LET n == DOMAIN r.p
  IN  /\ r.order = PairsInOrder(ToSet(r.p))
      /\ r.less  = [a \in n |-> [b \in n |-> IF PairLess(r.p[a], r.p[b]) THEN 1 ELSE 0]]
      /\ r.equal = [a \in n |-> [b \in n |-> IF r.p[a] = r.p[b] THEN 1 ELSE 0]]

Init == /\ i \in 1..Len(Data)
        /\ k = 0
        /\ s = IF Data[i].t = "bimap" THEN {} ELSE <<>>
        /\ err = IF Data[i].st # "ok" THEN Data[i].st
                 ELSE IF Data[i].t = "pairs" /\ ~PairsOk(Data[i]) THEN "answer" ELSE ""

Next1(news, ok) == s' = news /\ err' = IF ok THEN "" ELSE "answer"

QueueStep ==
  LET q == IF Op.op = "push" THEN QPush(s, X[1]) ELSE QPop(s)
  IN  Next1(q, /\ Op.op = "pop" => A.got = QTop(s)
               /\ A.top = QTop(q)
               /\ A.empty = (q = <<>>))

BimapStep ==
  LET b == CASE Op.op = "ins"   -> BInsert(s, X[1], X[2])
             [] Op.op = "left"  -> BRenameL(s, X[1], X[2])
             [] Op.op = "right" -> BRenameR(s, X[1], X[2])
             [] OTHER           -> BErase(s, X[1])
  IN  Next1(b, /\ A.n = Cardinality(b)
               /\ A.empty = (b = {})
               /\ ToSet(A.bypair) = b /\ ToSet(A.byleft) = b /\ ToSet(A.byright) = b)

TreeStep ==
  LET t == CASE Op.op = "son"   -> TInsert(s, X[1], X[2])
             [] Op.op = "under" -> TInsertUnder(s, X[1], X[2], X[3])
             [] OTHER           -> TDelete(s, X[1])
  IN  Next1(t, /\ A.links
               /\ A.n = Len(t)
               /\ [j \in DOMAIN A.sons |-> [i |-> A.sons[j].i, v |-> A.sons[j].v, sons |-> A.sons[j].sons]] = t
               /\ \A j \in DOMAIN t : A.sons[j].n = Len(t[j].sons)
               /\ A.last = IF t = <<>> THEN None ELSE t[Len(t)].i
               /\ ToSet(A.found) = TSons(t))

Next == /\ err = "" /\ R.t # "pairs" /\ k < Len(R.ops)
        /\ k' = k + 1 /\ i' = i
        /\ CASE R.t = "queue" -> QueueStep
             [] R.t = "bimap" -> BimapStep
             [] OTHER         -> TreeStep

HSpec == Init /\ [][Next]_hvars

Conforms == err = ""
=============================================================================
