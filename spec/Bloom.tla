------------------------------- MODULE Bloom ------------------------------
(* Plain and partitioned Bloom filters.  A filter is a record               *)
(*   kind  "bloom" or "part"                                                *)
(*   len   number of bits (all partitions together)                         *)
(*   k, w  number of probes; bits per partition (0 for a plain filter)      *)
(*   pos   for each key of the universe the set of its probe positions      *)
(*   bits  the positions that are one                                       *)
(*   ins   the keys inserted since the last clear (history)                 *)
EXTENDS Integers, Sequences, FiniteSets, Word

\* Position of the i-th probe (from 0) of the item with base hashes h[1], h[2].
Probe(kind, len, w, h, i) ==
    LET d == Derived(h[1], h[2], i)
    IN IF kind = "part" THEN i * w + Mod(d, w) ELSE Mod(d, len)

Probes(kind, len, k, w, h) == {Probe(kind, len, w, h, i) : i \in 0..(k - 1)}

Empty(kind, len, k, w, keys) ==
    [kind |-> kind, len |-> len, k |-> k, w |-> w,
     pos |-> [x \in DOMAIN keys |-> Probes(kind, len, k, w, keys[x])],
     bits |-> {}, ins |-> {}]

Insert(f, x) == [f EXCEPT !.bits = @ \cup f.pos[x], !.ins = @ \cup {x}]
Clear(f)     == [f EXCEPT !.bits = {}, !.ins = {}]

Reports(f, x) == f.pos[x] \subseteq f.bits
Reported(f)   == {x \in DOMAIN f.pos : Reports(f, x)}
Ones(f)       == Cardinality(f.bits)

\* The properties of one filter.
NoFalseNegative(f) == f.ins \subseteq Reported(f)
ClearedIsEmpty(f)  == f.ins = {} /\ f.k > 0 => Reported(f) = {}
ExactUnion(f)      == f.bits = UNION {f.pos[x] : x \in f.ins}
OnePerPartition(f) == f.kind = "part" =>
    \A x \in DOMAIN f.pos : \A i \in 0..(f.k - 1) :
        Cardinality(f.pos[x] \cap ((i * f.w)..(i * f.w + f.w - 1))) = 1
===========================================================================
