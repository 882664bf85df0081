------------------------------ MODULE MCCuckoo ----------------------------
(* Cuckoo filter insertion at the grain of single displacements: the code   *)
(* puts a fingerprint into a bucket, takes another one out and carries it   *)
(* to its other bucket, and spills the one in hand after MaxKicks moves.    *)
(* Checked: no class is ever lost or duplicated, buckets stay within their  *)
(* size, and every completed insertion is one the abstract PlaceNew allows. *)
EXTENDS Cuckoo
CONSTANTS Buckets, Entries, MaxKicks, MaxClasses

VARIABLES a,        \* placement of the classes at rest
          stored,   \* history: classes inserted and not removed since
          hand,     \* the class being carried, with the bucket it must go to; <<>> when idle
          kicks,
          pre       \* placement when the current insertion began
vars == <<a, stored, hand, kicks, pre>>

B == 0..(Buckets - 1)
\* a universe of classes with every shape of bucket pair, also a doubled one
Universe == LET pairs == {{i, j} : i, j \in B}
            IN {<<n, p>> : n \in 1..(IF Buckets = 2 THEN 2 ELSE 1), p \in pairs}

Init == a = <<>> /\ stored = {} /\ hand = <<>> /\ kicks = 0 /\ pre = <<>>

Other(c, b) == IF Cardinality(c[2]) = 1 THEN b ELSE CHOOSE x \in c[2] : x # b

Insert(c) ==
    /\ hand = <<>>
    /\ stored' = stored \cup {c}
    /\ pre' = a
    /\ IF c \in DOMAIN a THEN UNCHANGED <<a, hand, kicks>>
       ELSE IF Room(a, c, Entries) # {}
       THEN /\ \E b \in Room(a, c, Entries) : a' = a @@ (c :> b)
            /\ UNCHANGED <<hand, kicks>>
       ELSE /\ \E b \in c[2] : hand' = <<c, b, b>>      \* class, bucket it displaces from, bucket it came from
            /\ kicks' = 0
            /\ UNCHANGED a

\* swap the class in hand with one in the bucket, try to put that one into its other bucket
Kick ==
    /\ hand # <<>> /\ kicks < MaxKicks
    /\ \E v \in At(a, hand[2]) :
        LET b == hand[2]
            a2 == Restrict(a, DOMAIN a \ {v}) @@ (hand[1] :> b)
            nb == Other(v, b)
        IN IF Occ(a2, nb) < Entries
           THEN a' = a2 @@ (v :> nb) /\ hand' = <<>> /\ kicks' = 0
           ELSE a' = a2 /\ hand' = <<v, nb, b>> /\ kicks' = kicks + 1
    /\ UNCHANGED <<stored, pre>>

Spill ==
    /\ hand # <<>> /\ kicks = MaxKicks
    /\ a' = a @@ (hand[1] :> Spilled)
    /\ hand' = <<>> /\ kicks' = 0
    /\ UNCHANGED <<stored, pre>>

Remove(c) ==
    /\ hand = <<>>
    /\ a' = Restrict(a, DOMAIN a \ {c})
    /\ pre' = a'
    /\ stored' = stored \ {c}
    /\ UNCHANGED <<hand, kicks>>

Clear == hand = <<>> /\ a' = <<>> /\ pre' = <<>> /\ stored' = {} /\ UNCHANGED <<hand, kicks>>

Next == Kick \/ Spill \/ Clear \/ \E c \in Universe : (Cardinality(stored \cup {c}) <= MaxClasses /\ Insert(c)) \/ Remove(c)
Spec == Init /\ [][Next]_vars

InHand == IF hand = <<>> THEN {} ELSE {hand[1]}
NothingLost == DOMAIN a \cup InHand = stored /\ DOMAIN a \cap InHand = {}
Valid == ValidPlacement(a, Entries)
\* the carried class finds both of its buckets full
HandFull == hand # <<>> => \A b \in hand[1][2] : Occ(a, b) = Entries
\* at rest the placement is one that the atomic specification of the insertion allows
Atomic == (hand = <<>> /\ DOMAIN a # DOMAIN pre) =>
             LET c == CHOOSE c \in DOMAIN a \ DOMAIN pre : TRUE IN a \in PlaceNew(pre, c, Entries)
\* a spill needs rivals for both buckets
Rivalry == (hand = <<>> /\ SpillCount(a) > SpillCount(pre)) =>
             LET c == CHOOSE c \in DOMAIN a \ DOMAIN pre : TRUE IN MaySpill(DOMAIN a, c, Entries)
===========================================================================
