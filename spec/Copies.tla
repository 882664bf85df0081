------------------------------- MODULE Copies -----------------------------
(* A collection is a value determined by its history: the constructor and   *)
(* its arguments, then the operations.  Histories are kept as nodes of a    *)
(* tree (node 1 is the constructor); what an instance answers is a function *)
(* of its node, found out at the first visit.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Root(o) == [kids |-> <<>>, obs |-> <<o>>]
Known(t, n, op) == <<n, op>> \in DOMAIN t.kids
Child(t, n, op) == IF Known(t, n, op) THEN t.kids[<<n, op>>] ELSE Len(t.obs) + 1
Visit(t, n, op, o) == IF Known(t, n, op) THEN t
                      ELSE [kids |-> (<<n, op>> :> (Len(t.obs) + 1)) @@ t.kids, obs |-> Append(t.obs, o)]
===========================================================================
