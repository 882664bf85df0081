-------------------------- MODULE MCScalableCuckoo ------------------------
(* Scalable cuckoo filter with explicit placements: stages of 1, 2, 4, ..   *)
(* buckets, items with every combination of fingerprint and hash, every     *)
(* hash of the fingerprints.  Checked: the stages store what the histories  *)
(* of insertions and removals say, an inserted item is reported, only the   *)
(* newest stage can take items and is never full, and what the trace        *)
(* specification concludes from the sets alone is true of every placement.  *)
EXTENDS ScalableCuckoo
CONSTANTS Entries, First, Raw, NItems, MaxStages

VARIABLES hf,       \* hash of a fingerprint
          items,    \* items as <<fingerprint, hash>>
          pl,       \* placement of each stage
          sets,     \* what the sets of the trace specification are
          last      \* what happened last
vars == <<hf, items, pl, sets, last>>

Prints == 1..2
Buckets(n) == First * 2^(n - 1)
Cls(n, x) == LET b == x[2] % Buckets(n) IN <<x[1], {b, b ^^ (hf[x[1]] % Buckets(n))}>>
Init == /\ hf \in [Prints -> 0..(Raw - 1)]
        /\ items \in {I \in SUBSET (Prints \X (0..(Raw - 1))) : Cardinality(I) = NItems}
        /\ pl = <<<<>>>> /\ sets = <<{}>> /\ last = [op |-> "new"]
Reports(x) == \E n \in DOMAIN sets : Cls(n, x) \in sets[n]
Insert(x) ==
    LET n == Len(pl)
        c == Cls(n, x)
        cap == Buckets(n) * Entries
        known == Reports(x)
    IN \E p \in IF known THEN {pl[n]} ELSE PlaceNew(pl[n], c, Entries) :
          LET grow == Ripe(p, Entries, cap)
              now == IF known THEN sets[n] ELSE sets[n] \cup {c}
          IN /\ grow => n < MaxStages
             /\ pl' = IF grow THEN Append([pl EXCEPT ![n] = p], <<>>) ELSE [pl EXCEPT ![n] = p]
             /\ sets' = IF grow THEN Append([sets EXCEPT ![n] = now], {}) ELSE [sets EXCEPT ![n] = now]
             /\ last' = [op |-> "ins", x |-> x, grew |-> grow, old |-> sets[n], now |-> now, c |-> c, known |-> known, cap |-> cap]
Remove(x) == /\ pl' = [n \in DOMAIN pl |-> PlaceRemove(pl[n], Cls(n, x))]
             /\ sets' = [n \in DOMAIN sets |-> sets[n] \ {Cls(n, x)}]
             /\ last' = [op |-> "rem", x |-> x]
Clear == pl' = <<<<>>>> /\ sets' = <<{}>> /\ last' = [op |-> "new"]
Next == ((\E x \in items : Insert(x) \/ Remove(x)) \/ Clear) /\ UNCHANGED <<hf, items>>
Spec == Init /\ [][Next]_vars
View == <<hf, items, pl, sets, last>>

Refines == \A n \in DOMAIN pl : DOMAIN pl[n] = sets[n] /\ ValidPlacement(pl[n], Entries)
Newest == LET n == Len(pl) IN SpillCount(pl[n]) = 0 /\ TableCount(pl[n]) < Buckets(n) * Entries
OneSpill == \A n \in DOMAIN pl : SpillCount(pl[n]) <= 1
Reported == last.op = "ins" => Reports(last.x)
Removed == last.op = "rem" => ~Reports(last.x)
Growth == last.op = "ins" => IF last.grew THEN MayGrow(last.old, last.now, last.c, last.known, Entries, last.cap)
                             ELSE MayStay(last.old, last.now, last.c, last.known, Entries, last.cap)
\* an item of the newest stage cannot be one that an older stage reports, so no class is counted twice at once
Once == \A n \in DOMAIN sets : \A x \in items : last.op = "ins" /\ last.x = x /\ ~last.known => Cardinality({m \in DOMAIN sets : Cls(m, x) \in sets[m]}) = 1
===========================================================================
