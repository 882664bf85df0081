-------------------------------- MODULE Size ------------------------------
(* What the constructors owe for their arguments.  A probability is given as *)
(* p = m * 10^-9 * 2^-k with 5*10^8 <= m <= 10^9, m even.  Real numbers are  *)
(* pairs <<i, f>> standing for i + f * 10^-9; comparisons take a tolerance   *)
(* in 10^-9 that covers the fixed-point error and the floats of the code.    *)
EXTENDS Num, Tables

Norm(i, f) == <<i + f \div G, f % G>>
LeP(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Add2(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Sub2(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + G - b[2]>>
Scale(x, c) ==          \* x times c * 10^-9, for x < 10^9
    LET a == MulDivR(x[1], c, G)
        b == MulDiv(x[2], c, G)
    IN Norm(a[1] + (b \div G), a[2] + (b % G))
Times(x, n) == LET a == MulDivR(x[2], n, G) IN <<x[1] * n + a[1], a[2]>>
Over(x, n) == <<x[1] \div n, MulDiv(G, x[1] % n, n) + x[2] \div n>>

CeilOk(v, tol, x) == LeP(v, Norm(x, tol)) /\ LeP(<<x - 1, 0>>, Norm(v[1], v[2] + tol))
FloorOk(v, tol, x) == LeP(<<x, 0>>, Norm(v[1], v[2] + tol)) /\ LeP(v, Norm(x + 1, tol))
AtLeast(v, tol, x) == LeP(v, Norm(x, tol))      \* v <= x

RECURSIVE Atanh(_, _, _)
Atanh(t, z2, n) == IF t = 0 THEN 0 ELSE t \div n + Atanh(MulDiv(t, z2, G), z2, n + 2)
LnInv(m) ==             \* ln(10^9 / m) in 10^-9
    LET z == MulDiv(G, (G - m) \div 2, (G + m) \div 2) IN 2 * Atanh(z, MulDiv(z, z, G), 1)
Ln2 == 693147181
InvLn2 == 1442695041
\* log2(1/p)
L2(m, k) == Norm(k, MulDiv(LnInv(m), InvLn2, G))
\* p in 10^-9
Nano(m, k) == IF k > 30 THEN 0 ELSE m \div (2 ^ k)

RECURSIVE Halvings(_, _)
Halvings(x, n) == IF x >= G \div 2 THEN <<x - (x % 2), n>> ELSE Halvings(2 * x, n + 1)
L2Of(x) == LET h == Halvings(x, 0) IN L2(h[1], h[2])        \* log2(10^9 / x), 1 <= x <= 10^9
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
NextPow2(n) == 2 ^ CeilLog2(n)
IntLog2(c) == IF c = 1 THEN <<0, 0>>
              ELSE LET j == CeilLog2(c) IN Sub2(<<j, 0>>, L2Of(MulDiv(G, c, 2 ^ j)))

\* 2 - log2(-ln(1 - p)), for p <= 0.95
RECURSIVE Higher(_, _, _)
Higher(t, p, n) == IF t = 0 THEN 0 ELSE t \div n + Higher(MulDiv(t, p, G), p, n + 1)     \* p/2 + p^2/3 + ...
RateSmall(m, k) ==
    LET p == Nano(m, k)
        u == Higher(p, p, 2)
        z == MulDiv(u \div 2, G, G + u \div 2)
        lg == MulDiv(2 * Atanh(z, MulDiv(z, z, G), 1), InvLn2, G)
    IN Sub2(Add2(L2(m, k), <<2, 0>>), <<0, lg>>)
RateLarge(m, k) == L2Of(Over(Scale(L2Of(G - Nano(m, k)), Ln2), 4)[2])
Rate(m, k) == IF k >= 3 THEN RateSmall(m, k) ELSE RateLarge(m, k)

\* ---------------------------------------------------------------- Bloom filters
\* n log2(1/p) / ln 2
Ideal(n, m, k) == Scale(Times(L2(m, k), n), InvLn2)
Slack(n) == 100 * n + 100
BloomBits(n, m, k, bits) == CeilOk(Ideal(n, m, k), Slack(n), bits)
\* bits/items ln 2
BloomProbes(bits, items, probes) == CeilOk(Scale(Over(<<bits, 0>>, items), Ln2), 50 + bits \div items, probes)
\* the number of items that bits can hold at p: ln 2 bits / log2(1/p), rounded either way, at least 1
BloomItems(bits, m, k) ==
    LET x == Scale(<<bits, 0>>, Ln2)
        l == L2(m, k)
        about == MulDiv(10000000, 100 * x[1] + (x[2] \div 10000000), l[1] * 10000000 + l[2] \div 100) \div 100
        down(n) == /\ LeP(Times(l, n), Norm(x[1], x[2] + 50 + n \div 10))
                   /\ LeP(x, Add2(Times(l, n + 1), <<0, 50 + n \div 10>>))
        around == (about - 2 - about \div 1000000)..(about + 3 + about \div 1000000)
    IN {IF n = 0 THEN 1 ELSE n : n \in {n \in around : n >= 0 /\ (down(n) \/ (n > 0 /\ down(n - 1)))}}

PartProbes(m, k, probes) == CeilOk(L2(m, k), 60, probes)
PartBits(n, m, k, probes, width) == CeilOk(Over(Ideal(n, m, k), probes), Slack(n) \div probes + 10, width)

\* ((1 + ln p / ln(1 - 1/e)) + 1) / 2
StreamProbes(m, k, probes) == CeilOk(Over(Add2(<<2, 0>>, Scale(L2(m, k), 1511194115)), 2), 100, probes)

\* ---------------------------------------------------------------- cuckoo filters
MissLog2(fb) == <<MissLog2I[fb - 1], MissLog2F[fb - 1]>>
\* all 2e entries compared at full load: 2e * -ln(1 - 1/(2^fb - 1)) <= -ln(1 - p)
NeedLog2(e, m, k) == Add2(Add2(<<1, 0>>, IntLog2(e)), Rate(m, k))
Covers(fb, need, tol) == fb >= 2 /\ LeP(need, Add2(MissLog2(fb), <<2, tol>>))
WideEnough(fb, e, m, k, tol) == Covers(fb, NeedLog2(e, m, k), tol)
\* even a single entry is too many, or certainly not; in between either answer will do
Impossible(fb, m, k) == ~WideEnough(fb, 1, m, k, 1000)
Possible(fb, m, k) == Covers(fb, Add2(NeedLog2(1, m, k), <<0, 1000>>), 0)
Buckets(n, e) == NextPow2((n + e - 1) \div e)

\* ---------------------------------------------------------------- quotient filter
\* c/2^(q+r) < -ln(1 - p)
Below(c, q, r, m, k, tol) == LeP(Add2(IntLog2(c), Rate(m, k)), <<q + r + 2, tol>>)
\* 2^q is the power of two that 1.33 c rounds up to
Quotients(c, q) == 100 * (2 ^ q) >= 133 * c /\ (q = 0 \/ 100 * (2 ^ (q - 1)) < 134 * c)

\* ---------------------------------------------------------------- HyperLogLog
\* 1.04/sqrt(2^p) <= err
Registers(p, m, k) == LET a == Times(Add2(<<0, 56583528>>, L2(m, k)), 2) IN LeP(a, <<p, 100>>)

\* ---------------------------------------------------------------- count-min sketch
Rows(m, k, rows) == AtLeast(Scale(L2(m, k), Ln2), 100, rows)
\* cols * eps >= e
Cols(m, k, cols) ==
    LET l == IF m = G THEN <<cols, 0>> ELSE LET a == MulDivR(m, cols, G) IN <<a[1], a[2]>>
        e == Times(<<2, 718281828>>, 2 ^ k)
    IN LeP(e, Norm(l[1], l[2] + 10))
===========================================================================
