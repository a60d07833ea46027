-------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Anisotropic lines.  Parameters:                                         *)
(*   p.comp compliant cells, p.thr = <<num, den>> threshold (num < 0: not  *)
(*   checked), p.coup 1 for minimum distance (otherwise maximum weight),   *)
(*   p.force direction enforced, p.odd odd lengths allowed, p.maxc maximum *)
(*   number of cells (-1 if none).                                         *)
(***************************************************************************)
EXTENDS Mesh

WeightsOf(m, c) == {m.w[c][k] : k \in DOMAIN m.w[c]}

(* Threshold below one: take its inverse *)
Thr(p) == IF p.thr[1] < 0 \/ p.thr[1] > p.thr[2] THEN p.thr
          ELSE <<p.thr[2], p.thr[1]>>

IsAniso(m, p, c) ==
  /\ c \in p.comp
  /\ \/ p.thr[1] < 0
     \/ /\ Deg(m, c) > 0
        /\ LET t  == Thr(p)
               hi == MaxOf(WeightsOf(m, c))
               lo == MinOf(WeightsOf(m, c))
           IN  IF m.dim = 2 THEN ~FracLess(hi, lo, t[1], t[2])
               ELSE ~FracLess(hi, lo, t[1] * t[1], t[2] * t[2])

AnisoCells(m, p) == {c \in Cells(m) : IsAniso(m, p, c)}

(* Coupling of the k-th face of c as a ratio: weight, or 1 / distance^2 *)
Coupling(m, p, c, k) ==
  IF p.coup = 1 THEN <<1, SqDist(m, c, m.adj[c][k])>> ELSE <<m.w[c][k], 1>>

Stronger(a, b) == FracLess(b[1], b[2], a[1], a[2])

Strongest(m, p, c) ==
  LET F == {Coupling(m, p, c, k) : k \in DOMAIN m.adj[c]}
  IN  CHOOSE x \in F : \A y \in F : ~Stronger(y, x)

(* Coupling above nine tenths of the strongest one *)
HighCoupling(m, p, c, k) ==
  LET x == Coupling(m, p, c, k)
      s == Strongest(m, p, c)
  IN  FracLess(9 * s[1], s[2], 10 * x[1], x[2])

Dir(m, from, to) == [k \in DOMAIN m.cen[from] |-> m.cen[to][k] - m.cen[from][k]]
Dot(u, v)  == SumSeq([k \in DOMAIN u |-> u[k] * v[k]])
Opposite(u) == [k \in DOMAIN u |-> -u[k]]

(* Directions within twenty degrees: cos^2 > 0.883022221559... *)
Aligned(u, v) ==
  /\ Dot(u, v) > 0
  /\ ~FracLess(Dot(u, v) * Dot(u, v), Dot(u, u) * Dot(v, v),
               883022222, 1000000000)

(* Next cells by coupling: strongest, lowest index *)
ByCoupling(m, p, c, todo) ==
  LET K == {k \in DOMAIN m.adj[c] : /\ m.adj[c][k] \in todo
                                    /\ HighCoupling(m, p, c, k)}
      B == {k \in K : \A j \in K : ~Stronger(Coupling(m, p, c, j),
                                             Coupling(m, p, c, k))}
  IN  IF K = {} THEN {} ELSE {MinOf({m.adj[c][k] : k \in B})}

(* Next cells by direction: most aligned ones (rounding decides on ties) *)
ByDirection(m, p, c, todo, u, check) ==
  LET K == {k \in DOMAIN m.adj[c] :
              /\ m.adj[c][k] \in todo
              /\ check => HighCoupling(m, p, c, k)
              /\ Aligned(u, Dir(m, c, m.adj[c][k]))}
      V(k) == Dir(m, c, m.adj[c][k])
      Less(j, k) == FracLess(Dot(u, V(j)) * Dot(u, V(j)), Dot(V(j), V(j)),
                             Dot(u, V(k)) * Dot(u, V(k)), Dot(V(k), V(k)))
  IN  {m.adj[c][k] : k \in {k \in K : \A j \in K : ~Less(k, j)}}

(* l: [line, at, todo, dir, first, back] where dir = <<>> before the first *)
(* step, first is the direction of the first step and back tells that the  *)
(* other side is being explored.                                           *)
RECURSIVE Extend(_, _, _, _)
Extend(m, p, primal, l) ==
  LET byDir == p.force /\ l.dir # <<>>
      c1 == IF byDir THEN ByDirection(m, p, l.at, l.todo, l.dir, TRUE)
            ELSE ByCoupling(m, p, l.at, l.todo)
      cs == IF c1 = {} /\ byDir
            THEN ByDirection(m, p, l.at, l.todo, l.dir, FALSE) ELSE c1
      Step(c) ==
        LET u == Dir(m, l.at, c)
        IN  [line  |-> IF l.back THEN <<c>> \o l.line ELSE Append(l.line, c),
             at    |-> c,
             todo  |-> l.todo \ {c},
             dir   |-> u,
             first |-> IF l.first = <<>> THEN u ELSE l.first,
             back  |-> l.back]
  IN  IF cs # {} THEN UNION {Extend(m, p, primal, Step(c)) : c \in cs}
      ELSE IF ~l.back /\ l.at # primal
      THEN Extend(m, p, primal, [l EXCEPT !.at = primal, !.back = TRUE,
                                          !.dir = Opposite(l.first)])
      ELSE {l}

(* All the lines, one possible outcome per element of the set *)
RECURSIVE LinesFrom(_, _, _, _, _)
LinesFrom(m, p, seeds, todo, done) ==
  IF seeds = <<>> THEN {done}
  ELSE IF Head(seeds) \notin todo
  THEN LinesFrom(m, p, Tail(seeds), todo, done)
  ELSE UNION {LinesFrom(m, p, Tail(seeds), l.todo,
                        IF Len(l.line) > 1 THEN Append(done, l.line) ELSE done) :
              l \in Extend(m, p, Head(seeds),
                           [line |-> <<Head(seeds)>>, at |-> Head(seeds),
                            todo |-> todo \ {Head(seeds)}, dir |-> <<>>,
                            first |-> <<>>, back |-> FALSE])}

BuildLines(m, p) ==
  LET A == AnisoCells(m, p) IN LinesFrom(m, p, SortCells(m, A), A, <<>>)

(*----------------------------- agglomeration -----------------------------*)
(* Whether the line is taken from its first cell *)
Forward(m, line) ==
  LET f == line[1]
      b == line[Len(line)]
  IN  \/ Bnd(m, f) > Bnd(m, b)
      \/ Bnd(m, f) = Bnd(m, b) /\ Before(m, f, b)

Oriented(m, line) == IF Forward(m, line) THEN line ELSE Reverse(line)

(* Coarse cells of a line, each one a sequence of two or three fine cells *)
RECURSIVE PairUp(_, _)
PairUp(s, odd) ==
  IF Len(s) < 2 THEN <<>>
  ELSE IF Len(s) = 3 THEN IF odd THEN <<s>> ELSE <<SubSeq(s, 1, 2)>>
  ELSE <<SubSeq(s, 1, 2)>> \o PairUp(SubSeq(s, 3, Len(s)), odd)

LinePairs(m, p, line) ==
  LET o == Oriented(m, line)
      t == IF p.maxc >= 0 /\ p.maxc < Len(o) THEN SubSeq(o, 1, p.maxc) ELSE o
  IN  PairUp(t, p.odd)

(* Lines used: those with at least two cells *)
Usable(lines) == SelectSeq(lines, LAMBDA l : Len(l) > 1)

AllPairs(m, p, lines) == [k \in DOMAIN lines |-> LinePairs(m, p, lines[k])]

(* Coarse lines: consecutive identifiers, in order of creation *)
RECURSIVE Number(_, _)
Number(pairs, from) ==
  IF pairs = <<>> THEN <<>>
  ELSE <<[k \in DOMAIN Head(pairs) |-> from + k - 1]>>
       \o Number(Tail(pairs), from + Len(Head(pairs)))

(* Indexed list from and to sequences of sequences *)
RECURSIVE LineIdx(_, _)
LineIdx(lines, from) ==
  IF lines = <<>> THEN <<from>>
  ELSE <<from>> \o LineIdx(Tail(lines), from + Len(Head(lines)))

ToIndexed(lines) == IF lines = <<>> THEN [idx |-> <<>>, cells |-> <<>>]
                    ELSE [idx |-> LineIdx(lines, 0), cells |-> FlattenSeq(lines)]

FromIndexed(idx, cells) ==
  [k \in 1..(Len(idx) - 1) |-> SubSeq(cells, idx[k] + 1, idx[k + 1])]

ValidIndexed(idx, cells) ==
  \/ idx = <<>> /\ cells = <<>>
  \/ /\ Len(idx) >= 2
     /\ idx[1] = 0
     /\ idx[Len(idx)] = Len(cells)
     /\ \A k \in 1..(Len(idx) - 1) : idx[k] <= idx[k + 1]
=============================================================================
