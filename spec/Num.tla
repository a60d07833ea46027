-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic used by the specification.  The data of the meshes are *)
(* integers, hence every quantity the library compares is a rational       *)
(* number.  TLC integers have 32 bits: ratios are compared with Euclid's   *)
(* algorithm (no products), and the cubes of the 3D aspect ratios with     *)
(* naturals written in base 10^4, least significant digit first.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* a/b < c/d, for a, c >= 0 and b, d > 0 *)
RECURSIVE FracLess(_, _, _, _)
FracLess(a, b, c, d) ==
  LET qa == a \div b
      qc == c \div d
      ra == a % b
      rc == c % d
  IN  IF qa # qc THEN qa < qc
      ELSE IF rc = 0 THEN FALSE
      ELSE IF ra = 0 THEN TRUE
      ELSE FracLess(d, rc, b, ra)

FracEq(a, b, c, d) == ~FracLess(a, b, c, d) /\ ~FracLess(c, d, a, b)

(*----------------------------- large naturals ----------------------------*)
Base == 10000

RECURSIVE Big(_)
Big(n) == IF n < Base THEN <<n>> ELSE <<n % Base>> \o Big(n \div Base)

RECURSIVE BigTrim(_)
BigTrim(a) == IF Len(a) > 1 /\ a[Len(a)] = 0
              THEN BigTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BigSumProd(_, _, _, _)
BigSumProd(a, b, k, i) ==   \* sum over i of a[i] * b[k + 1 - i]
  IF i > Len(a) \/ i > k THEN 0
  ELSE (IF k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0)
       + BigSumProd(a, b, k, i + 1)

RECURSIVE BigMulFrom(_, _, _, _)
BigMulFrom(a, b, k, carry) ==
  IF k > Len(a) + Len(b) - 1
  THEN IF carry = 0 THEN <<>> ELSE Big(carry)
  ELSE LET s == BigSumProd(a, b, k, 1) + carry
       IN  <<s % Base>> \o BigMulFrom(a, b, k + 1, s \div Base)

BigMul(a, b) == BigTrim(BigMulFrom(a, b, 1, 0))

RECURSIVE BigLessFrom(_, _, _)
BigLessFrom(a, b, k) ==
  IF k = 0 THEN FALSE
  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE BigLessFrom(a, b, k - 1)

BigLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE BigLessFrom(a, b, Len(a))

RECURSIVE BigAddFrom(_, _, _, _)
BigAddFrom(a, b, k, carry) ==
  IF k > Len(a) /\ k > Len(b) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET s == (IF k <= Len(a) THEN a[k] ELSE 0)
                + (IF k <= Len(b) THEN b[k] ELSE 0) + carry
       IN  <<s % Base>> \o BigAddFrom(a, b, k + 1, s \div Base)

BigAdd(a, b) == BigAddFrom(a, b, 1, 0)

BigMaxOf(S) == CHOOSE x \in S : \A y \in S : ~BigLess(x, y)
BigMinOf(S) == CHOOSE x \in S : \A y \in S : ~BigLess(y, x)

BigSq(a) == BigMul(a, a)
BigCb(a) == BigMul(a, BigMul(a, a))

(* Ratios of large naturals, <<numerator, denominator>> *)
RatioLess(r, s) == BigLess(BigMul(r[1], s[2]), BigMul(s[1], r[2]))
RatioEq(r, s)   == BigMul(r[1], s[2]) = BigMul(s[1], r[2])
=============================================================================
