-------------------------------- MODULE Fpp -------------------------------
(* Estimated false positive probabilities in units of 10^-9.                *)
EXTENDS Num, Tables

\* cuckoo filter: 1 - ((2^fb - 2)/(2^fb - 1))^(2 * entries * occupied/capacity)
CuckooFpp(fb, entries, occupied, capacity) ==
    LET t == 2 * entries * occupied
        n == t \div capacity
        r == t % capacity
    IN IF t = 0 THEN 0
       ELSE IF fb = 1 THEN G
       ELSE G - MulDiv(PowG(MissG[fb - 1], n), ExpNegG(MulDiv(MissLnG[fb - 1], r, capacity)), G)

\* quotient filter: 1 - e^-(len / (capacity * 2^r)); y <= 1/2
QuotientFpp(len, capacity, r) ==
    LET y == MulDiv(G, len, capacity) IN G - ExpNegG(IF r > 30 THEN 0 ELSE y \div (2 ^ r))
===========================================================================
