-------------------------------- MODULE Many ------------------------------
(* Collections of many thousand elements.  Element i, from 0, has a         *)
(* fingerprint or place of its own; elements come and go in chunks of the   *)
(* same size, so the state is the set of the chunks present.                *)
EXTENDS Integers, FiniteSets

Present(m, i) == i \div m.chunk \in m.in
Number(m) == m.chunk * Cardinality(m.in)
PutChunk(m, c) == [m EXCEPT !.in = @ \cup {c}]
TakeChunk(m, c) == [m EXCEPT !.in = @ \ {c}]
===========================================================================
