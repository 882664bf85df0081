------------------------------- MODULE Cuckoo -----------------------------
(* A cuckoo filter as a set of fingerprint classes with a hidden placement. *)
(* A class is <<fingerprint, {bucket, bucket}>>; a placement maps every     *)
(* stored class to one of its buckets or to Spilled.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word, Bitwise

Spilled == -1

\* the n low bits of a word, 1 <= n <= 64
LowWord(w, n) == [j \in 1..4 |-> IF n >= 16 * j THEN w[j]
                                 ELSE IF n <= 16 * (j - 1) THEN 0
                                 ELSE w[j] % TwoTo(n - 16 * (j - 1))]

\* the first non-zero fingerprint of the rehash chain
Fingerprint(chain, fb) ==
    LET ok == {i \in DOMAIN chain : LowWord(chain[i], fb) # Zero}
    IN LowWord(chain[CHOOSE i \in ok : \A j \in ok : i <= j], fb)

\* class of an item: rehash chain and value h1 of the two builders, hash hf of the fingerprint
Class(chain, h1, hf, fb, bl) ==
    LET i1 == Mod(h1, bl)
        i2 == i1 ^^ Mod(hf, bl)
    IN <<Fingerprint(chain, fb), {i1, i2}>>

\* ---------------------------------------------------------------- placements
At(a, b) == {c \in DOMAIN a : a[c] = b}
Occ(a, b) == Cardinality(At(a, b))
Room(a, c, e) == {b \in c[2] : Occ(a, b) < e}
SpillCount(a) == Occ(a, Spilled)
TableCount(a) == Cardinality(DOMAIN a) - SpillCount(a)

ValidPlacement(a, e) ==
    \A c \in DOMAIN a : /\ a[c] \in c[2] \cup {Spilled}
                        /\ a[c] # Spilled => Occ(a, a[c]) <= e

\* classes in the table that share a bucket with c, directly or through others
RECURSIVE Reach(_, _)
Reach(tbl, S) ==
    LET B == UNION {c[2] : c \in S}
        T == S \cup {c \in tbl : c[2] \cap B # {}}
    IN IF T = S THEN S ELSE Reach(tbl, T)

\* all ways to place the classes of the sequence s on top of a, spilling at most n
RECURSIVE Ways(_, _, _, _)
Ways(a, s, e, n) ==
    IF s = <<>> THEN {a}
    ELSE LET c == Head(s)
         IN UNION {Ways(a @@ (c :> b), Tail(s), e, n) : b \in Room(a, c, e)}
            \cup (IF n > 0 THEN Ways(a @@ (c :> Spilled), Tail(s), e, n - 1) ELSE {})

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o SeqOf(S \ {c})

Restrict(a, D) == [c \in D |-> a[c]]

\* Insertion of a class that is not stored.  With room in a candidate bucket nothing moves; otherwise
\* entries are displaced, and at most one class whose candidate buckets are both full is spilled.
PlaceNew(a, c, e) ==
    IF Room(a, c, e) # {}
    THEN {a @@ (c :> b) : b \in Room(a, c, e)}
    ELSE LET tbl == {d \in DOMAIN a : a[d] # Spilled}
             R == Reach(tbl, {c})
             fixed == Restrict(a, DOMAIN a \ R)
             all == Ways(fixed, SeqOf(R), e, 1)
         IN {p \in all : \A d \in R : p[d] = Spilled => Room(p, d, e) = {}}

PlaceRemove(a, c) == Restrict(a, DOMAIN a \ {c})

\* ---------------------------------------------------------------- what holds without the placement
\* stored classes other than c that may sit in one of c's buckets
Rivals(stored, c) == {d \in stored \ {c} : d[2] \cap c[2] # {}}
MaySpill(stored, c, e) ==
    /\ Cardinality(Rivals(stored, c)) >= e * Cardinality(c[2])
    /\ \A b \in c[2] : Cardinality({d \in stored \ {c} : b \in d[2]}) >= e
===========================================================================
