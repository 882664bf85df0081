------------------------------- MODULE Word -------------------------------
(* 64-bit machine words as four 16-bit limbs, least significant first,      *)
(* because TLC's integers have 32 bits.                                     *)
EXTENDS Integers, Sequences

Zero == <<0, 0, 0, 0>>

FromInt(n) == <<n % 65536, (n \div 65536) % 65536, 0, 0>>      \* 0 <= n < 2^31

\* limbs with carries, each below 2^31 - 2^15 on entry, result modulo 2^64
Norm(x) ==
    LET c1 == x[1] \div 65536
        y2 == x[2] + c1
        c2 == y2 \div 65536
        y3 == x[3] + c2
        c3 == y3 \div 65536
        y4 == x[4] + c3
    IN <<x[1] % 65536, y2 % 65536, y3 % 65536, y4 % 65536>>

Add(x, y) == Norm([j \in 1..4 |-> x[j] + y[j]])

Scale(x, i) == Norm([j \in 1..4 |-> x[j] * i])                 \* 0 <= i < 2^14

Less(x, y) ==
    \/ x[4] < y[4]
    \/ x[4] = y[4] /\ \/ x[3] < y[3]
                      \/ x[3] = y[3] /\ \/ x[2] < y[2]
                                        \/ x[2] = y[2] /\ x[1] < y[1]

Min(x, y) == IF Less(y, x) THEN y ELSE x

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
          131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432,
          67108864, 134217728, 268435456, 536870912, 1073741824>>
TwoTo(n) == Pow2[n + 1]                                         \* 0 <= n <= 30

Bit(x, j) == (x[(j \div 16) + 1] \div TwoTo(j % 16)) % 2        \* 0 <= j < 64

LowBits(x, n) ==                                                \* 0 <= n <= 30
    IF n <= 16 THEN x[1] % TwoTo(n)
    ELSE x[1] + (65536 * (x[2] % TwoTo(n - 16)))

\* x mod m for 0 < m <= 2^23, byte by byte from the top
Mod(x, m) ==
    LET B(r, limb) == ((((r * 256 + (limb \div 256)) % m) * 256) + (limb % 256)) % m
    IN B(B(B(B(0, x[4]), x[3]), x[2]), x[1])

\* <<quotient, remainder>> of the unsigned x by m, 0 < m <= 2^23, byte by byte from the top
UDiv(x, m) ==
    LET Step(r, limb) == LET a == r * 256 + (limb \div 256)
                             b == (a % m) * 256 + (limb % 256)
                         IN <<(a \div m) * 256 + (b \div m), b % m>>
        s4 == Step(0, x[4])
        s3 == Step(s4[2], x[3])
        s2 == Step(s3[2], x[2])
        s1 == Step(s2[2], x[1])
    IN <<<<s1[1], s2[1], s3[1], s4[1]>>, s1[2]>>

\* two's complement
Negative(x) == x[4] >= 32768
Neg(x) == Add([j \in 1..4 |-> 65535 - x[j]], FromInt(1))
Sub(x, y) == Add(x, Neg(y))
SLess(a, b) == LET up(x) == [x EXCEPT ![4] = (x[4] + 32768) % 65536] IN Less(up(a), up(b))
\* floor of the signed x by m, with the remainder in 0..m-1
SDiv(x, m) == IF ~Negative(x) THEN UDiv(x, m)
              ELSE LET d == UDiv(Neg(x), m)
                   IN IF d[2] = 0 THEN <<Neg(d[1]), 0>> ELSE <<Sub(Neg(d[1]), FromInt(1)), m - d[2]>>
SCeilDiv(x, m) == Neg(SDiv(Neg(x), m)[1])

\* x times n for 0 <= n < 2^29
Times(x, n) == IF n < 16384 THEN Scale(x, n)
               ELSE Add(Scale(x, n % 16384), Scale(Scale(Scale(x, n \div 16384), 8192), 2))

\* i(i-1)(i-2)/6: directly for 0 <= i < 1600, as a word for 0 <= i < 2^29
Tetra(i) == IF i < 3 THEN 0 ELSE (((i * (i - 1)) \div 2) * (i - 2)) \div 3
TetraWord(i) ==
    IF i < 1600 THEN FromInt(Tetra(i))
    ELSE LET a == IF i % 2 = 0 THEN i \div 2 ELSE i
             b == IF i % 2 = 0 THEN i - 1 ELSE (i - 1) \div 2
             c == i - 2
         IN CASE i % 3 = 0 -> Times(Times(FromInt(IF i % 2 = 0 THEN i \div 6 ELSE i \div 3), b), c)
              [] i % 3 = 1 -> Times(Times(FromInt(IF i % 2 = 0 THEN (i - 1) \div 3 ELSE (i - 1) \div 6), a), c)
              [] OTHER -> Times(Times(FromInt(c \div 3), a), b)

\* The i-th value (from 0) of the hash sequence derived from the base hashes x and y.
Derived(x, y, i) == Add(Add(x, Times(y, i)), TetraWord(i))
===========================================================================
