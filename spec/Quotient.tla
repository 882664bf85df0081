------------------------------ MODULE Quotient ----------------------------
(* Quotient filter at the level of its slots.  A slot is <<o, c, s, r>>:    *)
(* occupied, continuation, shifted, remainder; slot numbers are 0..cap-1.   *)
(* Insert, remove and lookup are transcribed from the algorithm; what they  *)
(* must achieve is said independently by Decode.                            *)
EXTENDS Integers, Sequences, FiniteSets

Free == <<FALSE, FALSE, FALSE, 0>>
O(x) == x[1]
C(x) == x[2]
S(x) == x[3]
R(x) == x[4]
Used(x) == O(x) \/ C(x) \/ S(x)
Inc(i, cap) == IF i = cap - 1 THEN 0 ELSE i + 1
Dec(i, cap) == IF i = 0 THEN cap - 1 ELSE i - 1

\* ---------------------------------------------------------------- finding a run
RECURSIVE ClusterStart(_, _, _, _)
ClusterStart(t, cap, i, occ) ==      \* <<start of the cluster, occupied slots from there up to i>>
    LET n == occ + (IF O(t[i]) THEN 1 ELSE 0)
    IN IF S(t[i]) THEN ClusterStart(t, cap, Dec(i, cap), n) ELSE <<i, n>>

RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(t, cap, i, want, runs, total) ==
    LET tot == total + (IF O(t[i]) THEN 1 ELSE 0)
        rs == runs + (IF C(t[i]) THEN 0 ELSE 1)
    IN IF rs = want THEN <<i, rs, tot>> ELSE RunFrom(t, cap, Inc(i, cap), want, rs, tot)

\* <<first slot of the run of quotient q, runs and occupied slots from the cluster start to it>>
RunStart(t, cap, q) == LET c == ClusterStart(t, cap, q, 0) IN RunFrom(t, cap, c[1], c[2], 0, 0)

\* ---------------------------------------------------------------- lookup
RECURSIVE Scan(_, _, _, _)
Scan(t, cap, i, r) ==
    IF R(t[i]) = r THEN TRUE
    ELSE IF R(t[i]) > r THEN FALSE
    ELSE LET j == Inc(i, cap) IN IF C(t[j]) THEN Scan(t, cap, j, r) ELSE FALSE

Lookup(t, cap, q, r) ==
    /\ O(t[q])
    /\ \/ R(t[q]) = r /\ ~C(t[q]) /\ ~S(t[q])
       \/ Scan(t, cap, RunStart(t, cap, q)[1], r)

\* ---------------------------------------------------------------- insertion
RECURSIVE ShiftRight(_, _, _, _)
ShiftRight(t, cap, i, x) ==
    LET n == t[i]
        y == <<O(x) \/ O(n), C(x), S(x), R(x)>>
        t2 == [t EXCEPT ![i] = y]
    IN IF ~Used(n) THEN t2
       ELSE ShiftRight(t2, cap, Inc(i, cap), <<FALSE, C(n), TRUE, R(n)>>)

RECURSIVE Position(_, _, _, _)
Position(t, cap, i, r) ==            \* where r goes in the run that starts at or before i
    IF r < R(t[i]) THEN i
    ELSE LET j == Inc(i, cap) IN IF C(t[j]) THEN Position(t, cap, j, r) ELSE j

\* the table after inserting a fingerprint that is not present and for which there is room
Put(t, cap, q, r) ==
    IF ~Used(t[q]) THEN [t EXCEPT ![q] = <<TRUE, FALSE, FALSE, r>>]
    ELSE LET new == ~O(t[q])
             t1 == [t EXCEPT ![q] = <<TRUE, C(@), S(@), R(@)>>]
             start == RunStart(t1, cap, q)[1]
             pos == IF new THEN start ELSE Position(t1, cap, start, r)
             t2 == IF ~new /\ pos = start
                   THEN [t1 EXCEPT ![start] = <<O(@), TRUE, S(@), R(@)>>] ELSE t1
             x == <<FALSE, ~new /\ pos # start, pos # q, r>>
         IN ShiftRight(t2, cap, pos, x)

\* ---------------------------------------------------------------- removal
RECURSIVE Locate(_, _, _, _, _)
Locate(t, cap, i, r, occ) ==         \* <<slot of r, occupied slots up to it>>, or <<-1, 0>>
    IF R(t[i]) = r THEN <<i, occ>>
    ELSE IF R(t[i]) > r THEN <<-1, 0>>
    ELSE LET j == Inc(i, cap)
         IN IF C(t[j]) THEN Locate(t, cap, j, r, occ + (IF O(t[j]) THEN 1 ELSE 0)) ELSE <<-1, 0>>

\* move the entries after the hole at i to the left; first: the hole was the start of its run
RECURSIVE ShiftLeft(_, _, _, _, _, _, _)
ShiftLeft(t, cap, i, keep, first, runs, occ) ==
    LET j == Inc(i, cap)
        n == t[j]
    IN IF ~C(n) /\ ~S(n) THEN [t EXCEPT ![i] = <<keep, FALSE, FALSE, 0>>]
       ELSE LET rs == runs + (IF C(n) THEN 0 ELSE 1)
                cont == C(n) /\ ~first
                shift == ~keep \/ occ # rs
                t2 == [t EXCEPT ![i] = <<keep, cont, shift, R(n)>>, ![j] = <<O(n), C(n), S(n), R(n)>>]
            IN ShiftLeft(t2, cap, j, O(n), FALSE, rs, occ + (IF O(n) THEN 1 ELSE 0))

Take(t, cap, q, r) ==
    IF ~O(t[q]) THEN t
    ELSE LET rn == RunStart(t, cap, q)
             loc == Locate(t, cap, rn[1], r, rn[3])
             i == loc[1]
         IN IF i = -1 THEN t
            ELSE LET first == ~C(t[i])
                     last == first /\ ~C(t[Inc(i, cap)])
                     t1 == IF last THEN [t EXCEPT ![q] = <<FALSE, C(@), S(@), R(@)>>] ELSE t
                     keep == O(t1[i])
                 IN ShiftLeft(t1, cap, i, keep, first, rn[2], loc[2])

\* ---------------------------------------------------------------- what a table means
RECURSIVE Back(_, _, _)
Back(t, cap, i) == IF S(t[i]) THEN Back(t, cap, Dec(i, cap)) ELSE i
Dist(a, b, cap) == (b - a + cap) % cap
Between(a, b, cap) == {(a + d) % cap : d \in 0..Dist(a, b, cap)}

\* the quotient whose run slot i belongs to: runs and occupied slots of a cluster correspond in order
QuotientOf(t, cap, i) ==
    LET c == Back(t, cap, i)
        k == Cardinality({j \in Between(c, i, cap) : ~C(t[j])})
        qs == {j \in Between(c, i, cap) : O(t[j])}
    IN CHOOSE q \in qs : Cardinality({j \in qs : Dist(c, j, cap) <= Dist(c, q, cap)}) = k

UsedSlots(t) == {i \in DOMAIN t : Used(t[i])}
Decode(t, cap) == {<<QuotientOf(t, cap, i), R(t[i])>> : i \in UsedSlots(t)}

WellFormed(t, cap) ==
    \A i \in DOMAIN t :
        /\ C(t[i]) => S(t[i])
        /\ ~Used(t[i]) => t[i] = Free
        /\ Used(t[i]) => (S(t[i]) <=> QuotientOf(t, cap, i) # i)
        /\ C(t[i]) => /\ Used(t[Dec(i, cap)])
                      /\ QuotientOf(t, cap, Dec(i, cap)) = QuotientOf(t, cap, i)
                      /\ R(t[Dec(i, cap)]) < R(t[i])
===========================================================================
