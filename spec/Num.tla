------------------------------- MODULE Num --------------------------------
(* Fixed-point arithmetic within TLC's 32-bit integers.                     *)
EXTENDS Integers, Sequences

\* floor(a*b/c) for 0 <= a, b and 0 < c <= 2^30 with a result below 2^31:
\* double-and-add on quotient and remainder.
RECURSIVE MulDivR(_, _, _)
MulDivR(a, b, c) ==     \* <<quotient, remainder>> of a*b by c, for a < c
    IF b = 0 THEN <<0, 0>>
    ELSE LET h == MulDivR(a, b \div 2, c)
             d == (2 * h[2]) % c
             q == 2 * h[1] + (2 * h[2]) \div c
         IN  IF b % 2 = 0 THEN <<q, d>>
             ELSE IF d >= c - a THEN <<q + 1, d - (c - a)>> ELSE <<q, d + a>>
MulDiv(a, b, c) == (a \div c) * b + MulDivR(a % c, b, c)[1]

G == 1000000000
\* x^k for x in units of 10^-9, 0 <= x <= 10^9
RECURSIVE PowG(_, _)
PowG(x, k) == IF k = 0 THEN G
              ELSE IF x = 0 THEN 0
              ELSE IF x >= G THEN G
              ELSE LET h == PowG(x, k \div 2)
                       s == MulDiv(h, h, G)
                   IN IF k % 2 = 1 THEN MulDiv(s, x, G) ELSE s

\* e^-y for y in units of 10^-9, 0 <= y < 2*10^9
RECURSIVE ExpTerms(_, _, _)
ExpTerms(term, y, n) ==       \* term - term*y/n + ...
    IF term = 0 THEN 0 ELSE term - ExpTerms(MulDiv(term, y, G) \div n, y, n + 1)
ExpNegG(y) == ExpTerms(G, y, 1)

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
===========================================================================
