------------------------------ MODULE MCFpp -------------------------------
(* The estimated false positive probability as a function of the fill:      *)
(* starting empty, every step stores one more element (a bit, a             *)
(* fingerprint).  The estimate starts at 0, never falls and stays in [0, 1];*)
(* combining stages is symmetric in effect and never below any stage.       *)
EXTENDS Fpp, Bloom, FiniteSets
CONSTANTS Kmax, Cap
VARIABLES kind, shape, fill, fpp
vars == <<kind, shape, fill, fpp>>

Of(kd, s, n) == CASE kd = "bloom" -> PowG(MulDiv(G, n, s[2]), s[1])                 \* k probes, m bits
                  [] kd = "cuckoo" -> CuckooFpp(s[1], s[2], n, s[3])                \* fingerprint bits, entries, capacity
                  [] kd = "quotient" -> QuotientFpp(n, s[1], s[2])                  \* capacity, remainder bits
Limit(kd, s) == CASE kd = "bloom" -> s[2] [] kd = "cuckoo" -> s[3] [] kd = "quotient" -> s[1] - 1
Shapes == {<<"bloom", <<k, m>>>> : k \in 1..Kmax, m \in 1..Cap}
          \cup {<<"cuckoo", <<fb, e, c>>>> : fb \in {1, 2, 3, 4, 8, 16, 32, 64}, e \in 1..3, c \in 1..(Cap \div 2)}
          \cup {<<"quotient", <<c, r>>>> : c \in {2, 4, 8, 16}, r \in {1, 2, 5, 20, 61}}
Init == \E s \in Shapes : kind = s[1] /\ shape = s[2] /\ fill = 0 /\ fpp = Of(kind, shape, 0)
Next == /\ fill < Limit(kind, shape)
        /\ fill' = fill + 1
        /\ fpp' = Of(kind, shape, fill')
        /\ UNCHANGED <<kind, shape>>
Spec == Init /\ [][Next]_vars

InRange == fpp >= 0 /\ fpp <= G
EmptyIsZero == fill = 0 => fpp = 0
FullBloomIsOne == (kind = "bloom" /\ fill = shape[2]) => fpp = G
\* up to the rounding of the fixed-point power
NeverFalls == [][fpp' >= fpp - 3]_vars
Independent == LET g == G - MulDiv(G - fpp, G - fpp, G) IN g >= fpp - 1 /\ g <= G
===========================================================================
