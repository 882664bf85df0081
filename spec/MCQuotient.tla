----------------------------- MODULE MCQuotient ---------------------------
(* Exhaustive model of the quotient filter's slot algorithm.                *)
EXTENDS Quotient, TLC, Json
CONSTANTS Q, RB, Edges
VARIABLES t,        \* the slots
          stored    \* history: the fingerprints inserted and not removed since
vars == <<t, stored>>

Cap == 2 ^ Q
Fps == (0..(Cap - 1)) \X (0..(2 ^ RB - 1))
Num(f) == f[1] * 2 ^ RB + f[2] + 1

Edge(op) == Edges => PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<Q, RB>>, from |-> {Num(f) : f \in stored},
                                               op |-> <<op>>, to |-> {Num(f) : f \in stored'}]))
Init == t = [i \in 0..(Cap - 1) |-> Free] /\ stored = {}

Insert(f) ==
    /\ IF ~Used(t[f[1]]) \/ (~Lookup(t, Cap, f[1], f[2]) /\ Cardinality(stored) < Cap)
       THEN t' = Put(t, Cap, f[1], f[2]) /\ stored' = stored \cup {f}
       ELSE UNCHANGED vars          \* present already, or full (refused)
    /\ Edge(Num(f))
Remove(f) == t' = Take(t, Cap, f[1], f[2]) /\ stored' = stored \ {f} /\ Edge(-Num(f))
Clear == t' = [i \in 0..(Cap - 1) |-> Free] /\ stored' = {} /\ Edge(0)

Next == Clear \/ \E f \in Fps : Insert(f) \/ Remove(f)
Spec == Init /\ [][Next]_vars

Exact == Decode(t, Cap) = stored /\ Cardinality(UsedSlots(t)) = Cardinality(stored)
Found == \A f \in Fps : Lookup(t, Cap, f[1], f[2]) <=> f \in stored
Shape == WellFormed(t, Cap)
Occupied == \A i \in 0..(Cap - 1) : O(t[i]) <=> \E f \in stored : f[1] = i
Fits == Cardinality(stored) <= Cap
===========================================================================
