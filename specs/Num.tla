-------------------------------- MODULE Num --------------------------------
(* Exact integer helpers.  TLC integers are 32 bit, so every product that   *)
(* may not fit is computed by MulDiv (shift-and-add with a running          *)
(* quotient/remainder), never by writing a*b.                               *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

RECURSIVE MulDivR(_, _, _)
\* <<floor(a*b/c), a*b mod c>>,  a,b >= 0, 0 < c < 2^30
MulDivR(a, b, c) ==
  IF a = 0 THEN <<0, 0>>
  ELSE LET h  == MulDivR(a \div 2, b, c)
           q2 == 2 * h[1] + (2 * h[2]) \div c
           r2 == (2 * h[2]) % c
       IN IF a % 2 = 0 THEN <<q2, r2>>
          ELSE LET rb == r2 + (b % c)
               IN <<q2 + (b \div c) + rb \div c, rb % c>>

MulDiv(a, b, c) == MulDivR(a, b, c)[1]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* floor / nearest division for any sign of the numerator, c > 0
RoundDiv(a, c) == (2 * a + c) \div (2 * c)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
