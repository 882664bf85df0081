----------------------------- MODULE Accuracy -----------------------------
(* How rare the errors of a collection must be, as a function of what it    *)
(* was asked for.  Probabilities x are in units of 10^-9.                   *)
EXTENDS Size, FiniteSets

Expected(q, x) == MulDiv(q, x, G)
\* w errors in q tries are not too many (too few) for the chance x: Bernstein's bound at e^-20
NotTooMany(w, q, x) ==
    LET mu == Expected(q, x) + 1  t == w - mu IN IF t <= 0 THEN TRUE ELSE IF t >= 40000 THEN FALSE ELSE t * t <= 40 * mu + 14 * t
NotTooFew(w, q, x) ==
    LET mu == Expected(q, x)  t == mu - w IN IF t <= 0 THEN TRUE ELSE IF t >= 40000 THEN FALSE ELSE t * t <= 40 * mu + 14 * t
Times100(x, pct) == LET y == (x \div 100) * pct IN IF x > 0 /\ (pct > 2000 \/ x \div 100 > (2 * G) \div pct \/ y > G) THEN G ELSE y
\* a number of bits that is not large fills by chance a little more or less than on average
RECURSIVE RootFrom(_, _)
RootFrom(n, r) == LET s == (r + n \div r) \div 2 IN IF s >= r THEN r ELSE RootFrom(n, s)
Root(n) == IF n <= 1 THEN n ELSE RootFrom(n, n)
Spread(probes, bits) == 115 + (400 * probes) \div Root(bits)
\* the sum of p * r^i over the first n stages, r in units of 10^-9
RECURSIVE StageSum(_, _, _)
StageSum(p, r, n) == IF n = 0 \/ p = 0 THEN 0
                     ELSE LET rest == StageSum(MulDiv(p, r, G), r, n - 1) IN IF rest >= G - p THEN G ELSE p + rest
FillPower(ones, bits, probes) == PowG(MulDiv(G, ones, bits), probes)
===========================================================================
