------------------------------ MODULE MCSetOps ----------------------------
(* The abstract set machine shared by the removable filters: insert, remove *)
(* and clear over N items.  Its transitions are replayed on the real code   *)
(* for several filter shapes; what they must answer is decided by the       *)
(* filter's own specification.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Shapes
VARIABLES stored, shape
vars == <<stored, shape>>

Edge(op) == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<shape>>, from |-> stored,
                                      op |-> <<op>>, to |-> stored']))
Init == stored = {} /\ shape \in 1..Shapes
Insert(x) == stored' = stored \cup {x} /\ UNCHANGED shape /\ Edge(x)
Remove(x) == stored' = stored \ {x} /\ UNCHANGED shape /\ Edge(-x)
Clear == stored' = {} /\ UNCHANGED shape /\ Edge(0)
Next == Clear \/ \E x \in 1..N : Insert(x) \/ Remove(x)
Spec == Init /\ [][Next]_vars
TypeOK == stored \subseteq 1..N
===========================================================================
