---------------------------- MODULE HyperLogLog ---------------------------
(* HyperLogLog with 2^p registers over 64-bit hashes.  The registers are a   *)
(* function of the set of items: register i holds the largest rank among the *)
(* items whose low p hash bits are i, and 0 if there is none.  Only non-zero *)
(* registers are kept: regs is a function from register indexes to ranks.    *)
EXTENDS Integers, Sequences, FiniteSets, Word, Num, Tables
LOCAL Sized == INSTANCE Size

RECURSIVE RunOfOnes(_, _)
RunOfOnes(h, j) == IF j >= 64 THEN 0 ELSE IF Bit(h, j) = 0 THEN 0 ELSE 1 + RunOfOnes(h, j + 1)
Place(h, p) == <<LowBits(h, p), 1 + RunOfOnes(h, p)>>       \* register, rank

RECURSIVE SetMax(_)
SetMax(S) == CHOOSE a \in S : \A b \in S : b <= a
RegsOf(places) ==         \* of a set of <<register, rank>>
    [i \in {q[1] : q \in places} |-> SetMax({q[2] : q \in {q \in places : q[1] = i}})]

\* ---- estimate
AlphaG(p) == CASE p = 4 -> 673000000 [] p = 5 -> 697000000 [] p = 6 -> 709000000
               [] OTHER -> MulDiv(721300000, 1000 * TwoTo(p), 1000 * TwoTo(p) + 1079)

\* A histogram says how many registers hold each non-zero rank that occurs.
HistOf(regs) == [r \in {regs[i] : i \in DOMAIN regs} |-> Cardinality({i \in DOMAIN regs : regs[i] = r})]
\* Many items at once, with 2^p registers in chunks of the given size: <<0, c, r>> stands for an item of
\* rank r for every register of chunk c, <<1, j, r>> for one for register j.
BulkHist(items, p, chunk) ==
    LET rank == [c \in 0..(TwoTo(p) \div chunk - 1) |-> SetMax({0} \cup {i[3] : i \in {i \in items : i[1] = 0 /\ i[2] = c}})]
        alone == {i[2] : i \in {i \in items : i[1] = 1}}
        one == [j \in alone |-> SetMax({rank[j \div chunk]} \cup {i[3] : i \in {i \in items : i[1] = 1 /\ i[2] = j}})]
        ranks == {rank[c] : c \in DOMAIN rank} \cup {one[j] : j \in alone}
    IN [r \in ranks \ {0} |-> chunk * Cardinality({c \in DOMAIN rank : rank[c] = r})
                               - Cardinality({j \in alone : rank[j \div chunk] = r})
                               + Cardinality({j \in alone : one[j] = r})]
RECURSIVE HowMany(_, _)
HowMany(hist, R) == IF R = {} THEN 0 ELSE LET r == CHOOSE r \in R : TRUE IN hist[r] + HowMany(hist, R \ {r})
Occupied(hist) == HowMany(hist, DOMAIN hist)

\* The sum over all registers of 2^-r is 2^-low * S / 2^s where S is between lo and hi.
Low(hist, p) == IF Occupied(hist) < TwoTo(p) THEN 0
                ELSE CHOOSE r \in DOMAIN hist : \A i \in DOMAIN hist : r <= i
RECURSIVE SumHist(_, _, _, _)
SumHist(hist, left, low, s) ==      \* <<sum of floor(count * 2^(s-(r-low))), number of truncated terms>>
    IF left = {} THEN <<0, 0>>
    ELSE LET r == CHOOSE r \in left : TRUE
             d == r - low
             t == SumHist(hist, left \ {r}, low, s)
         IN IF d <= s THEN <<t[1] + hist[r] * TwoTo(s - d), t[2]>>
            ELSE <<t[1] + (IF d - s > 30 THEN 0 ELSE hist[r] \div TwoTo(d - s)), t[2] + 1>>
Harmonic(hist, p) ==
    LET s == IF p >= 9 THEN 29 - p ELSE 20
        low == Low(hist, p)
        t == SumHist(hist, DOMAIN hist, low, s)
        zeros == TwoTo(p) - Occupied(hist)
        lo == t[1] + zeros * TwoTo(s)
    IN [s |-> s, low |-> low, lo |-> lo, hi |-> lo + t[2]]

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* alpha m m / sum, as <<f, e>> with the value f * 10^-9 * 2^e and 10^9 <= f < 2*10^9, for a sum S/2^s*2^-low
RawWith(p, low, s, S) ==
    LET t == Log2(TwoTo(p + s) \div S)
        q == MulDiv(AlphaG(p), TwoTo(p + s - t), S)
        e == p + t + low
    IN IF q >= G THEN <<q, e>> ELSE IF 2 * q >= G THEN <<2 * q, e - 1>> ELSE <<4 * q, e - 2>>
RawHigh(hist, p) == LET h == Harmonic(hist, p) IN RawWith(p, h.low, h.s, h.lo)
RawLow(hist, p) == LET h == Harmonic(hist, p) IN RawWith(p, h.low, h.s, h.hi)

\* a <= b + tol for two numbers <<f, e>>
Leq(a, b, tol) == \/ a[2] < b[2]
                  \/ a[2] = b[2] /\ a[1] <= b[1] + tol
                  \/ a[2] = b[2] + 1 /\ a[1] <= G + tol /\ b[1] >= 2 * G - tol - 2
\* the threshold 2.5 m
Threshold(p) == <<1250000000, p + 1>>

\* ln(m/z) in 10^-8 for d = m - z occupied registers, and its error bound
RECURSIVE LnTerms(_, _, _)
LnTerms(term, x, n) ==      \* term/n + term*x/(n+1) + ...
    IF term = 0 THEN 0 ELSE term \div n + LnTerms(MulDiv(term, x, G), x, n + 1)
LnRatio(p, d) ==
    LET m == TwoTo(p)
    IN IF 2 * d <= m
       THEN <<LnTerms(MulDiv(G, d, m), MulDiv(G, d, m), 1) \div 10, 6>>
       ELSE IF p <= 12 THEN <<(LnMicro[m] - LnMicro[m - d]) * 100, 110>>
       ELSE LET x == Sized!Scale(Sized!Sub2(<<p, 0>>, Sized!IntLog2(m - d)), Sized!Ln2)
            IN <<x[1] * 100000000 + x[2] \div 10, 110>>

\* The estimate o of a sketch: o.f and o.e its value f * 10^-9 * 2^e (10^9 <= f < 2*10^9), o.rat its ratio to
\* the number of registers in 10^-8 (at most 2*10^9), o.bits its bits.
Estimates(p, hist, o) ==
    \E hi \in {RawHigh(hist, p)}, lo \in {RawLow(hist, p)}, d \in {Occupied(hist)}, 
       ln \in {IF Occupied(hist) < TwoTo(p) THEN LnRatio(p, Occupied(hist)) ELSE <<0, 0>>} :
       LET tol == 3000
           linear == /\ d < TwoTo(p)
                     /\ Leq(lo, Threshold(p), tol)
                     /\ Near(o.rat, ln[1], ln[2])
                     /\ d > 0 /\ 2 * d <= TwoTo(p) => o.rat > 0
           raw == /\ d = TwoTo(p) \/ Leq(Threshold(p), hi, tol)
                  /\ Leq(lo, <<o.f, o.e>>, tol)
                  /\ Leq(<<o.f, o.e>>, hi, tol)
       IN /\ o.rat >= 0 /\ o.fin
          /\ IF d = 0 THEN o.bits = "0" ELSE linear \/ raw
===========================================================================
