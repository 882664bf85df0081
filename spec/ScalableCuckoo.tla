--------------------------- MODULE ScalableCuckoo -------------------------
(* When a scalable cuckoo filter adds a stage: after every insertion whose  *)
(* newest stage is full or holds a spilled class.  Both are facts about the *)
(* hidden placement; these are the conditions on the sets alone.            *)
EXTENDS Cuckoo

\* At rest the newest stage has a free entry and nothing spilled, so its classes fit their buckets:
\* neither the classes confined to c's buckets nor those connected with c outnumber the entries there.
Fits(S, c, e) ==
    LET R == Reach(S, {c})
    IN /\ Cardinality({d \in S : d[2] \subseteq c[2]}) <= e * Cardinality(c[2])
       /\ Cardinality(R) <= e * Cardinality(UNION {d[2] : d \in R})

\* the newest stage stored the set old and stores now after the insertion of an item of class c
MayGrow(old, now, c, known, e, cap) == Cardinality(now) >= cap \/ (~known /\ MaySpill(old, c, e))
MayStay(old, now, c, known, e, cap) == Cardinality(now) < cap /\ (~known => Fits(now, c, e))
\* with the placement
Ripe(p, e, cap) == SpillCount(p) > 0 \/ TableCount(p) >= cap
===========================================================================
