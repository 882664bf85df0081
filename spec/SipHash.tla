------------------------------ MODULE SipHash -----------------------------
(* SipHash 2-4 on 64-bit words of four 16-bit limbs.                        *)
EXTENDS Integers, Sequences, Word, Bitwise

XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
\* rotation to the left by b bits, 0 <= b < 64
Rotl(x, b) ==
    LET q == b \div 16
        r == b % 16
        At(j) == x[((j - 1 - q + 8) % 4) + 1]           \* the limb that moves to place j
        Below(j) == x[((j - 2 - q + 8) % 4) + 1]
        Limb(j) == ((At(j) % TwoTo(16 - r)) * TwoTo(r)) + (Below(j) \div TwoTo(16 - r))
    IN <<Limb(1), Limb(2), Limb(3), Limb(4)>>

\* one round on the state <<v0, v1, v2, v3>>
SipRound(v) ==
    LET a0 == Add(v[1], v[2])
        b1 == XorW(Rotl(v[2], 13), a0)
        c0 == Rotl(a0, 32)
        d2 == Add(v[3], v[4])
        e3 == XorW(Rotl(v[4], 16), d2)
        f0 == Add(c0, e3)
        g3 == XorW(Rotl(e3, 21), f0)
        h2 == Add(d2, b1)
        i1 == XorW(Rotl(b1, 17), h2)
        j2 == Rotl(h2, 32)
    IN <<f0, i1, j2, g3>>
Compress(v, m) == LET w == SipRound(SipRound([v EXCEPT ![4] = XorW(@, m)])) IN [w EXCEPT ![1] = XorW(@, m)]

\* bytes i..i+7 as a little-endian word; n is the message length in the last byte of the last block
ByteAt(msg, i) == IF i <= Len(msg) THEN msg[i] ELSE 0
Pair(msg, i) == ByteAt(msg, i) + (256 * ByteAt(msg, i + 1))
Block(msg, b) == <<Pair(msg, 8 * b + 1), Pair(msg, 8 * b + 3), Pair(msg, 8 * b + 5), Pair(msg, 8 * b + 7)>>
Last(msg) == LET w == Block(msg, Len(msg) \div 8) IN [w EXCEPT ![4] = (@ % 256) + 256 * (Len(msg) % 256)]
RECURSIVE Absorb(_, _, _)
Absorb(v, msg, b) == IF b = Len(msg) \div 8 THEN Compress(v, Last(msg)) ELSE Absorb(Compress(v, Block(msg, b)), msg, b + 1)

Start(k0, k1) == <<XorW(k0, <<25973, 28787, 28005, 29551>>),     \* "somepseu"
                   XorW(k1, <<28525, 28260, 29281, 25711>>),     \* "dorandom"
                   XorW(k0, <<29281, 28261, 26469, 27769>>),     \* "lygenera"
                   XorW(k1, <<25971, 31092, 25698, 29797>>)>>    \* "tedbytes"
Hash(k0, k1, msg) ==
    LET v == Absorb(Start(k0, k1), msg, 0)
        w == SipRound(SipRound(SipRound(SipRound([v EXCEPT ![3] = XorW(@, <<255, 0, 0, 0>>)]))))
    IN XorW(XorW(w[1], w[2]), XorW(w[3], w[4]))
===========================================================================
