-------------------------------- MODULE Runs ------------------------------
(* Very long vectors: a sequence of values written down by the indexes at   *)
(* which a run of equal values starts.  Every sequence can be written this  *)
(* way, and in one way only; the operations cost as much as there are runs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* at: index -> value; 0 is in its domain unless the sequence is empty, and
\* neighbouring values differ
StartOf(v, i) == CHOOSE c \in DOMAIN v.at : c <= i /\ \A d \in DOMAIN v.at : d <= i => d <= c
ValueAt(v, i) == v.at[StartOf(v, i)]
\* the sequence of length n with the values f, which change within s at most
Compact(n, s, f(_)) ==
    LET c == (s \cup {0}) \cap 0..(n - 1)
        k == {i \in c : i = 0 \/ f(i) # f(i - 1)}
    IN [n |-> n, at |-> TLCEval([i \in k |-> f(i)])]

Same(n, x) == Compact(n, {}, LAMBDA i : x)
FromSeq(s) == Compact(Len(s), 1..(Len(s) - 1), LAMBDA i : s[i + 1])
\* the pairs <<length, value>> one after another
RECURSIVE StartsOf(_, _)
StartsOf(p, base) == IF p = <<>> THEN {} ELSE {<<base, p[1][2]>>} \cup StartsOf(Tail(p), base + p[1][1])
RECURSIVE LengthOf(_)
LengthOf(p) == IF p = <<>> THEN 0 ELSE p[1][1] + LengthOf(Tail(p))
FromPairs(p) ==
    LET q == StartsOf(p, 0)
        raw == [n |-> LengthOf(p), at |-> [i \in {x[1] : x \in q} |-> (CHOOSE x \in q : x[1] = i)[2]]]
    IN Compact(raw.n, DOMAIN raw.at, LAMBDA i : ValueAt(raw, i))

Assign(v, i, x) == Compact(v.n, DOMAIN v.at \cup {i, i + 1}, LAMBDA j : IF j = i THEN x ELSE ValueAt(v, j))
Extend(v, x) == Compact(v.n + 1, DOMAIN v.at \cup {v.n}, LAMBDA j : IF j = v.n THEN x ELSE ValueAt(v, j))
RECURSIVE ExtendAll(_, _)
ExtendAll(v, p) == IF p = <<>> THEN v
                   ELSE ExtendAll(Compact(v.n + p[1][1], DOMAIN v.at \cup {v.n}, LAMBDA j : IF j >= v.n THEN p[1][2] ELSE ValueAt(v, j)), Tail(p))
Shorten(v, m) == IF m < v.n THEN Compact(m, DOMAIN v.at, LAMBDA j : ValueAt(v, j)) ELSE v
Pointwise(v, g(_)) == Compact(v.n, DOMAIN v.at, LAMBDA j : g(ValueAt(v, j)))
Zip(a, b, g(_, _)) == Compact(a.n, DOMAIN a.at \cup DOMAIN b.at, LAMBDA j : g(ValueAt(a, j), ValueAt(b, j)))

EndOf(v, c) == LET later == {d \in DOMAIN v.at : d > c} IN IF later = {} THEN v.n ELSE CHOOSE d \in later : \A e \in later : d <= e
RECURSIVE Total(_, _, _)
Total(v, s, zero) == IF s = {} THEN 0
                     ELSE LET c == CHOOSE c \in s : TRUE
                          IN (IF v.at[c] = zero THEN 0 ELSE EndOf(v, c) - c) + Total(v, s \ {c}, zero)
NonZero(v, zero) == Total(v, DOMAIN v.at, zero)

\* bits
Bit2(op, x, y) == CASE op = "union" -> IF x + y > 0 THEN 1 ELSE 0
                    [] op = "inter" -> x * y
                    [] op = "diff" -> x * (1 - y)
                    [] op = "sym" -> (x + y) % 2
\* the bits of the pairs <<number, byte>>, most significant bit first
RECURSIVE Halves(_)
Halves(k) == IF k = 0 THEN 1 ELSE 2 * Halves(k - 1)
BitsOf(p) == IF p[2] = 0 THEN <<<<8 * p[1], 0>>>>
             ELSE IF p[2] = 255 THEN <<<<8 * p[1], 1>>>>
             ELSE [i \in 1..(8 * p[1]) |-> <<1, (p[2] \div Halves(7 - ((i - 1) % 8))) % 2>>]
RECURSIVE BitsOfAll(_)
BitsOfAll(ps) == IF ps = <<>> THEN <<>> ELSE BitsOf(ps[1]) \o BitsOfAll(Tail(ps))
\* the bits of the bytes a vector is exported to: padded with zeros
Padded(v) == IF v.n % 8 = 0 THEN v ELSE ExtendAll(v, <<<<8 - (v.n % 8), 0>>>>)
===========================================================================
