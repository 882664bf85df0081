-------------------------------- MODULE Wide ------------------------------
(* Positions beyond 32 bits: vectors, filters and tables that are far larger *)
(* than what is ever stored in them.  Positions and values are machine words;*)
(* a vector is the function of its non-zero places.                          *)
EXTENDS Integers, Sequences, FiniteSets, Word, TLC

RECURSIVE RemFrom(_, _, _, _)
RemFrom(x, y, j, r) ==
    IF j < 0 THEN r
    ELSE LET d == Add(Add(r, r), FromInt(Bit(x, j)))
         IN RemFrom(x, y, j - 1, IF Less(d, y) THEN d ELSE Sub(d, y))
Rem(x, y) == RemFrom(x, y, 63, Zero)                     \* x mod y, y < 2^63

RECURSIVE TimesFrom(_, _)
TimesFrom(x, n) == IF n = 0 THEN Zero ELSE Add(x, TimesFrom(x, n - 1))

LowWord(x, n) == [j \in 1..4 |-> LET b == n - 16 * (j - 1)         \* the low n bits of x
                                 IN IF b <= 0 THEN 0 ELSE IF b >= 16 THEN x[j] ELSE x[j] % TwoTo(b)]
XorLimb(a, b) == LET RECURSIVE X(_, _, _)
                     X(u, v, j) == IF j = 16 THEN 0
                                   ELSE (IF (u \div TwoTo(j)) % 2 = (v \div TwoTo(j)) % 2 THEN 0 ELSE TwoTo(j)) + X(u, v, j + 1)
                 IN X(a, b, 0)
XorWord(x, y) == [j \in 1..4 |-> XorLimb(x[j], y[j])]

\* ---- sparse vectors: n places, those in DOMAIN at not zero
Value(v, i) == IF i \in DOMAIN v.at THEN v.at[i] ELSE Zero
Write(v, i, x) == [v EXCEPT !.at = IF x = Zero THEN [p \in DOMAIN @ \ {i} |-> @[p]] ELSE (i :> x) @@ @]
Cut(v, n) == [v EXCEPT !.n = n, !.at = [p \in {p \in DOMAIN @ : Less(p, n)} |-> @[p]]]

\* ---- Bloom filters: the probe positions of an item with two hash values
WProbe(kind, len, w, h, i) ==
    LET d == Derived(h[1], h[2], i)
    IN IF kind = "part" THEN Add(TimesFrom(w, i), Rem(d, w)) ELSE Rem(d, len)
WProbes(kind, len, w, k, h) == {WProbe(kind, len, w, h, i) : i \in 0..(k - 1)}

\* ---- tables of 2^q slots or buckets: what two items must share to be the same to them
QClass(h, q, r) == LowWord(h[1], q + r)
CClass(h, hf, q, fb) == LET i == LowWord(h[2], q)
                        IN <<LowWord(h[1], fb), {i, LowWord(XorWord(i, hf), q)}>>
===========================================================================
