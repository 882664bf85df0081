-------------------------------- MODULE Bits ------------------------------
(* A bit vector is a length and the set of the indexes (from 0) that are    *)
(* one; a vector of w-bit strings is a sequence of words below 2^w.         *)
EXTENDS Integers, Sequences, FiniteSets, Word

Vec(n, s) == [n |-> n, s |-> s]
All(n) == 0..(n - 1)
FromBit(n, b) == Vec(n, IF b = 1 THEN All(n) ELSE {})
\* bytes, most significant bit first
BitOf(bytes, i) == (bytes[(i \div 8) + 1] \div TwoTo(7 - (i % 8))) % 2
FromBytes(bytes) == Vec(8 * Len(bytes), {i \in All(8 * Len(bytes)) : BitOf(bytes, i) = 1})
RECURSIVE ByteFrom(_, _, _)
ByteFrom(s, base, j) == IF j = 8 THEN 0 ELSE (IF base + j \in s THEN TwoTo(7 - j) ELSE 0) + ByteFrom(s, base, j + 1)
ToBytes(v) == [b \in 1..((v.n + 7) \div 8) |-> ByteFrom(v.s, 8 * (b - 1), 0)]

Put(v, i, b) == Vec(v.n, IF b = 1 THEN v.s \cup {i} ELSE v.s \ {i})
Flip(v, i) == Vec(v.n, IF i \in v.s THEN v.s \ {i} ELSE v.s \cup {i})
Push(v, b) == Vec(v.n + 1, IF b = 1 THEN v.s \cup {v.n} ELSE v.s)
Pop(v) == IF v.n = 0 THEN v ELSE Vec(v.n - 1, v.s \ {v.n - 1})
Trunc(v, m) == IF m < v.n THEN Vec(m, v.s \cap All(m)) ELSE v
SetAll(v, b) == FromBit(v.n, b)
FlipAll(v) == Vec(v.n, All(v.n) \ v.s)
Combine(op, a, b) == CASE op = "union" -> a \cup b
                       [] op = "inter" -> a \cap b
                       [] op = "diff" -> a \ b
                       [] op = "sym" -> (a \ b) \cup (b \ a)
===========================================================================
