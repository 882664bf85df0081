------------------------------- MODULE Stream -----------------------------
(* Bloom filters for streams: a new item sets its bit in every partition    *)
(* after random positions were evicted.  f is a record                      *)
(*   kind  "bs" (biased sampling), "bssd" (single deletion),                *)
(*         "rlbs" (randomized load balancing)                               *)
(*   w, k  positions per partition, partitions                              *)
(*   pos   for each key its offset in each partition                        *)
(*   bits  for each partition the offsets that are one                      *)
EXTENDS Integers, Sequences, FiniteSets, Word

Offsets(k, w, h) == [i \in 1..k |-> Mod(Derived(h[1], h[2], i - 1), w)]
NoBits(k) == [i \in 1..k |-> {}]

SReports(f, x) == \A i \in 1..f.k : f.pos[x][i] \in f.bits[i]
SReported(f) == {x \in DOMAIN f.pos : SReports(f, x)}
RECURSIVE CountTo(_, _)
CountTo(bits, n) == IF n = 0 THEN 0 ELSE Cardinality(bits[n]) + CountTo(bits, n - 1)
SOnes(f) == CountTo(f.bits, f.k)

\* evicted: for each partition the set of positions (at most one) chosen for eviction
Place(f, x, evicted) == [i \in 1..f.k |-> (f.bits[i] \ evicted[i]) \cup {f.pos[x][i]}]

\* the choices each scheme has
Choices(f) ==
    LET W == 0..(f.w - 1)
        One == {{o} : o \in W}
    IN CASE f.kind = "bs" -> [1..f.k -> One]
         [] f.kind = "bssd" -> {[i \in 1..f.k |-> IF i = p THEN s ELSE {}] : p \in 1..f.k, s \in One}
         [] f.kind = "rlbs" -> {c \in [1..f.k -> One \cup {{}}] :
                                  \A i \in 1..f.k : /\ f.bits[i] = {} => c[i] = {}
                                                    /\ Cardinality(f.bits[i]) = f.w => c[i] # {}}

\* all successors of the insertion of x
SInsert(f, x) ==
    IF SReports(f, x) THEN {f}
    ELSE {[f EXCEPT !.bits = Place(f, x, c)] : c \in Choices(f)}

\* the same as a relation on the partitions' contents
Lost(f, nb, i) == f.bits[i] \ nb[i]
MayBecome(f, x, nb) ==
    IF SReports(f, x) THEN nb = f.bits
    ELSE /\ \A i \in 1..f.k :
               /\ Cardinality(Lost(f, nb, i)) <= 1
               /\ f.pos[x][i] \in nb[i]
               /\ nb[i] \subseteq f.bits[i] \cup {f.pos[x][i]}
         /\ f.kind = "bssd" => Cardinality({i \in 1..f.k : Lost(f, nb, i) # {}}) <= 1

\* chance that the one at offset o of partition i is lost, as <<numerator, denominator>>
Chance(f, i) == CASE f.kind = "bs" -> <<1, f.w>>
                  [] f.kind = "bssd" -> <<1, f.k * f.w>>
                  [] f.kind = "rlbs" -> <<Cardinality(f.bits[i]), f.w * f.w>>
===========================================================================
