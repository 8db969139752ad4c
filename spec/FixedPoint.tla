----------------------------- MODULE FixedPoint -----------------------------
(***************************************************************************)
(* Fixed point real arithmetic on TLC's 32-bit integers.                    *)
(*                                                                         *)
(* A real r is represented by the integer round(r * One), One = 10^6, with   *)
(* |r| < 2147.  Three sentinels stand for values outside of that range.      *)
(* Exp and Ln work internally at scale 10^8, so that their error is at most   *)
(* a couple of units in the last place of the external scale.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

One  == 1000000
NaN  == -2000000001      \* the observation was not a number
PInf ==  2000000002      \* plus infinity, or too large to be represented
NInf == -2000000002      \* minus infinity, or too small to be represented

IsNum(x) == x > -2000000000 /\ x < 2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* a * b / 10^6, rounded, for non negative a and b whose product fits
MulNN(a, b) ==
  LET a1 == a \div 1000   a0 == a % 1000
      b1 == b \div 1000   b0 == b % 1000
      x  == a1 * b0       y  == a0 * b1
  IN a1 * b1 + (x \div 1000) + (y \div 1000)
     + (((x % 1000) + (y % 1000) + ((a0 * b0) \div 1000) + 500) \div 1000)

Mul(a, b) == LET m == MulNN(Abs(a), Abs(b)) IN IF (a < 0) = (b < 0) THEN m ELSE -m

\* a * 10^k \div b by long division, non negative a and positive b < 2 * 10^8
RECURSIVE LongDiv(_, _, _, _)
LongDiv(q, r, b, k) ==
  IF k = 0 THEN IF 2 * r >= b THEN q + 1 ELSE q
  ELSE LongDiv(10 * q + ((10 * r) \div b), (10 * r) % b, b, k - 1)

RECURSIVE DivNN(_, _)
DivNN(a, b) == IF b >= 200000000 THEN DivNN(a \div 10, b \div 10)
               ELSE LongDiv(a \div b, a % b, b, 6)

Div(a, b) == LET q == DivNN(Abs(a), Abs(b)) IN IF (a < 0) = (b < 0) THEN q ELSE -q

---------------------------------------------------------------------------
\* Internal scale 10^8, for values in (-20, 20) and products below 20

I8 == 100000000
Mul8NN(a, b) ==
  LET a1 == a \div 10000   a0 == a % 10000
      b1 == b \div 10000   b0 == b % 10000
      x  == a1 * b0        y  == a0 * b1
  IN a1 * b1 + (x \div 10000) + (y \div 10000)
     + (((x % 10000) + (y % 10000) + ((a0 * b0) \div 10000)) \div 10000)

Ln2 == 69314718       \* ln(2) * 10^8

\* Taylor series of exp(r), 0 <= r < ln 2, at scale 10^8
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(r, term, n, acc) ==
  IF term = 0 \/ n > 14 THEN acc
  ELSE LET t == Mul8NN(term, r) \div n IN ExpSeries(r, t, n + 1, acc + t)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* exp(x): 0 below -15, and PInf above 7.6
Exp(x) ==
  IF x = NaN THEN NaN
  ELSE IF x < -15000000 THEN 0
  ELSE IF x > 7600000 THEN PInf
  ELSE LET xx == x + 22 * 693147                    \* make it positive
           k0 == xx \div 693147
           k  == k0 - 22                            \* x = k * 0.693147 + rest
           rest == x - k * 693147                   \* in [0, .693147), scale 10^6
           \* k * ln 2 = k * 0.693147 + k * 0.00000018
           r8 == rest * 100 - k * 18
           r  == IF r8 < 0 THEN 0 ELSE r8
           e  == ExpSeries(r, I8, 1, I8)            \* in [1, 2], scale 10^8
       IN IF k >= 0
          THEN LET p == Pow2(k)                     \* p <= 2^10
                   hi == e \div 100  lo == e % 100
               IN hi * p + ((lo * p + 50) \div 100)
          ELSE LET p == Pow2(-k) IN (e + 50 * Min2(p, 4194304)) \div (100 * Min2(p, 4194304))

\* atanh series: z + z^3/3 + z^5/5 + ...   at scale 10^8
RECURSIVE AtanhSeries(_, _, _, _)
AtanhSeries(z2, pw, n, acc) ==
  IF pw = 0 \/ n > 17 THEN acc
  ELSE LET p == Mul8NN(pw, z2) IN AtanhSeries(z2, p, n + 2, acc + (p \div n))

RECURSIVE LnNorm(_, _)
\* m at scale 10^8 in [1, 2): ln(m) + k ln 2
LnNorm(m, k) ==
  IF m >= 2 * I8 THEN LnNorm(m \div 2, k + 1)
  ELSE IF m < I8 THEN LnNorm(m * 2, k - 1)
  ELSE LET num == m - I8    den == m + I8           \* den <= 3*10^8
           z == LongDiv((num \div 2) \div (den \div 2), (num \div 2) % (den \div 2), den \div 2, 8)
           s == AtanhSeries(Mul8NN(z, z), z, 3, z)
       IN <<2 * s, k>>

\* ln(x) for x > 0; minus infinity at zero, not a number below zero
Ln(x) ==
  IF x = NaN \/ x < 0 THEN NaN
  ELSE IF x = 0 THEN NInf
  ELSE LET big == x > 19000000
           d   == IF big THEN x \div 2 ELSE x         \* keep x * 100 within 31 bits
           big2 == d > 19000000
           RECURSIVE Halve(_, _)
           Halve(y, k) == IF y > 19000000 THEN Halve(y \div 2, k + 1) ELSE <<y, k>>
           hk  == Halve(x, 0)
           r   == LnNorm(hk[1] * 100, hk[2])
           k   == r[2]
           s   == IF k >= 0 THEN (r[1] + 50) \div 100 ELSE (r[1] + 50) \div 100
       IN s + k * 693147 + ((k * 18 + 50) \div 100)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumF(_, _, _)
\* sum of F[i] for i in lo..hi
SumF(F, lo, hi) == IF lo > hi THEN 0 ELSE F[lo] + SumF(F, lo + 1, hi)

\* at the edge of the range a sentinel and a number may stand for the same value
Edge(a, b) == \/ a = b
              \/ (a = PInf /\ b > 1900000000) \/ (b = PInf /\ a > 1900000000)
              \/ (a = NInf /\ b < -1900000000 /\ IsNum(b)) \/ (b = NInf /\ a < -1900000000 /\ IsNum(a))
\* closeness: the two agree to within tol (absolute), sentinels agree exactly
Near(a, b, tol) == IF (a < 0) # (b < 0) /\ (Abs(a) > 1000000000 \/ Abs(b) > 1000000000) THEN FALSE ELSE Abs(a - b) <= tol
Close(a, b, tol) == IF IsNum(a) /\ IsNum(b) THEN Near(a, b, tol) ELSE Edge(a, b)
\* agree to within tol * max(1, |b|)
CloseRel(a, b, tol) ==
  IF IsNum(a) /\ IsNum(b) THEN Near(a, b, tol * (1 + (Abs(b) \div One))) ELSE Edge(a, b)
=============================================================================
