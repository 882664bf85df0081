------------------------------ MODULE CountMin ----------------------------
(* Count-min sketch.  The net amount of every item determines every counter: *)
(* a counter holds the sum of the net amounts of the items it is shared by.  *)
(* f is a record: rows, cols, col (per item its column in every row),        *)
(* net (per item its net amount).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word

Columns(rows, cols, h) == [r \in 1..rows |-> Mod(Derived(h[1], h[2], r - 1), cols)]

RECURSIVE SumOver(_, _)
SumOver(net, ks) == IF ks = {} THEN 0 ELSE LET y == CHOOSE y \in ks : TRUE IN net[y] + SumOver(net, ks \ {y})
Sharing(f, x, r) == {y \in DOMAIN f.net : f.col[y][r] = f.col[x][r]}
Counter(f, x, r) == SumOver(f.net, Sharing(f, x, r))
Counters(f, x) == TLCEval([r \in 1..f.rows |-> Counter(f, x, r)])
Total(f) == SumOver(f.net, DOMAIN f.net)

SMin(v) == CHOOSE a \in {v[r] : r \in DOMAIN v} : \A r \in DOMAIN v : a <= v[r]
\* element (n-1) \div 2 (from 0) of the sorted values
LowerMedian(v) == CHOOSE a \in {v[r] : r \in DOMAIN v} :
    /\ Cardinality({r \in DOMAIN v : v[r] < a}) <= (Len(v) - 1) \div 2
    /\ Cardinality({r \in DOMAIN v : v[r] <= a}) > (Len(v) - 1) \div 2
RECURSIVE SumSeq(_, _)
SumSeq(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumSeq(v, n - 1)
\* nearest integer, halves away from zero
RoundDiv(s, n) == IF s >= 0 THEN (2 * s + n) \div (2 * n) ELSE -((n - 2 * s) \div (2 * n))
CeilDiv(a, b) == -((-a) \div b)

MinCount(f, x) == SMin(Counters(f, x))
MeanCount(f, x) == RoundDiv(SumSeq(Counters(f, x), f.rows), f.rows)
Debiased(f, x) == LET v == TLCEval(Counters(f, x)) t == Total(f)
                  IN TLCEval([r \in 1..f.rows |-> v[r] - CeilDiv(t - v[r], f.cols - 1)])
BiasCount(f, x) == LET m == MinCount(f, x) d == LowerMedian(Debiased(f, x)) IN IF d < m THEN d ELSE m

\* The same with every amount a multiple of U = rows * (cols - 1) * 2^k and results in units of 2^k,
\* where every division is exact.
ScaledMin(f, x) == MinCount(f, x) * f.rows * (f.cols - 1)
ScaledMean(f, x) == SumSeq(Counters(f, x), f.rows) * (f.cols - 1)
ScaledBias(f, x) ==
    LET v == TLCEval(Counters(f, x)) t == Total(f)
        d == LowerMedian(TLCEval([r \in 1..f.rows |-> v[r] * f.rows * (f.cols - 1) - (t - v[r]) * f.rows]))
        m == ScaledMin(f, x)
    IN IF d < m THEN d ELSE m

\* Amounts as 64-bit two's complement words
RECURSIVE WSum(_, _)
WSum(net, ks) == IF ks = {} THEN Zero ELSE LET y == CHOOSE y \in ks : TRUE IN Add(net[y], WSum(net, ks \ {y}))
WCounters(f, x) == TLCEval([r \in 1..f.rows |-> WSum(f.net, Sharing(f, x, r))])
WLeast(v) == CHOOSE a \in {v[r] : r \in DOMAIN v} : \A r \in DOMAIN v : ~SLess(v[r], a)
WMin(f, x) == WLeast(WCounters(f, x))
\* each counter is q*n + r, so the mean is the sum of the q and the sum of the r by n
RECURSIVE WTotal(_, _)
WTotal(v, n) == IF n = 0 THEN Zero ELSE Add(v[n], WTotal(v, n - 1))
WMeanOf(v) ==
    LET n == Len(v)
        d == TLCEval([r \in 1..n |-> SDiv(v[r], n)])
        s == SumSeq([r \in 1..n |-> d[r][2]], n)
        fl == Add(WTotal([r \in 1..n |-> d[r][1]], n), FromInt(s \div n))
        t == 2 * (s % n)
    IN IF t > n \/ (t = n /\ ~Negative(fl)) THEN Add(fl, FromInt(1)) ELSE fl
WMean(f, x) == WMeanOf(WCounters(f, x))
WLowerMedian(v) == CHOOSE a \in {v[r] : r \in DOMAIN v} :
    /\ Cardinality({r \in DOMAIN v : SLess(v[r], a)}) <= (Len(v) - 1) \div 2
    /\ Cardinality({r \in DOMAIN v : ~SLess(a, v[r])}) > (Len(v) - 1) \div 2
WBias(f, x) ==
    LET v == TLCEval(WCounters(f, x))
        t == WSum(f.net, DOMAIN f.net)
        d == WLowerMedian(TLCEval([r \in 1..f.rows |-> Sub(v[r], SCeilDiv(Sub(t, v[r]), f.cols - 1))]))
        m == WLeast(v)
    IN IF SLess(d, m) THEN d ELSE m
===========================================================================
