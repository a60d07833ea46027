------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* Features and aspect ratios of a set of cells, from their definition.    *)
(* Weights are such that the average weight of the faces of a boundary     *)
(* cell is an integer.                                                     *)
(***************************************************************************)
EXTENDS Mesh

Measure(m, S) == SumOver(S, LAMBDA c : m.vol[c])

TotalWeight(m, c) ==
  LET s == SumSeq(m.w[c])
  IN  IF Bnd(m, c) = 0 THEN s ELSE s + Bnd(m, c) * (s \div Deg(m, c))

(* Twice the sum of the weights of the faces inside S *)
InsideWeight2(m, S) ==
  SumOver(S, LAMBDA c :
    LET RECURSIVE Go(_)
        Go(k) == IF k = 0 THEN 0
                 ELSE (IF m.adj[c][k] \in S THEN m.w[c][k] ELSE 0) + Go(k - 1)
    IN  Go(Deg(m, c)))

InternalWeights(m, S) == InsideWeight2(m, S) \div 2
ExternalWeights(m, S) == SumOver(S, LAMBDA c : TotalWeight(m, c))
                         - InsideWeight2(m, S)
InternalFaces(m, S)   == SumOver(S, LAMBDA c : Shared(m, c, S)) \div 2
ExternalFacets(m, c, S) == Deg(m, c) + Bnd(m, c) - Shared(m, c, S)

PairDists(m, S) == {SqDist(m, e[1], e[2]) : e \in {e \in S \X S : e[1] < e[2]}}
SqDiam(m, S)    == MaxOf(PairDists(m, S))
SqMinEdge(m, S) == MinOf(PairDists(m, S))

(* Sum of volume times center, by coordinate *)
SumCenters(m, S) ==
  [k \in 1..Len(m.cen[CHOOSE c \in S : TRUE]) |->
     SumOver(S, LAMBDA c : m.vol[c] * m.cen[c][k])]

(* Square of the distance from the barycenter, times the square of measure, *)
(* as a large natural                                                      *)
BaryDist(m, S, c) ==
  LET sc == SumCenters(m, S)
      v  == Measure(m, S)
      RECURSIVE Go(_)
      Go(k) == IF k = 0 THEN <<0>>
               ELSE BigAdd(BigSq(Big(Abs(sc[k] - v * m.cen[c][k]))), Go(k - 1))
  IN  Go(Len(sc))

(* Distances of the cells not surrounded by S and not at the barycenter *)
OuterBaryDists(m, S) ==
  {BaryDist(m, S, c) : c \in {c \in S : ExternalFacets(m, c, S) > 0}} \ {<<0>>}

(* Aspect ratio of type t of a set with at least two cells, as a ratio of  *)
(* large naturals; the last but one is squared.                            *)
AR(m, t, S) ==
  LET d  == m.dim
      v  == Measure(m, S)
  IN CASE t = 0 -> IF d = 2 THEN <<Big(SqDiam(m, S)), Big(v)>>
                   ELSE <<BigCb(Big(SqDiam(m, S))), BigSq(Big(v))>>
       [] t = 1 -> IF Cardinality(S) = 2 THEN <<Big(SqDiam(m, S)), <<1>>>>
                   ELSE <<Big(SqDiam(m, S)), Big(SqMinEdge(m, S))>>
       [] t = 2 -> <<Big(SqDiam(m, S)), <<1>>>>
       [] t = 3 -> <<<<1>>, Big(v)>>
       [] t = 4 -> <<<<1>>, Big(InternalWeights(m, S))>>
       [] t = 5 -> IF d = 2 THEN <<BigSq(Big(ExternalWeights(m, S))), Big(v)>>
                   ELSE <<BigCb(Big(ExternalWeights(m, S))), BigSq(Big(v))>>
       [] t = 6 -> <<Big(ExternalWeights(m, S)), <<1>>>>
       [] t = 7 -> LET x == BigMaxOf({BaryDist(m, S, c) : c \in S})
                   IN  IF d = 2 THEN <<x, BigCb(Big(v))>>
                       ELSE <<BigCb(x), BigSq(BigSq(BigSq(Big(v))))>>
       [] t = 8 -> LET D == OuterBaryDists(m, S)
                   IN  IF D = {} THEN <<<<0>>, <<1>>>>
                       ELSE <<BigMaxOf(D), BigMinOf(D)>>
       [] t = 9 -> <<Big(ExternalWeights(m, S)), Big(v)>>

(* Types whose value is not computed exactly in floating point: ties can   *)
(* be broken by rounding.                                                  *)
Inexact(t) == t \in {7, 8}
=============================================================================
