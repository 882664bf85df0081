------------------------------ MODULE MCStream ----------------------------
(* Exhaustive model of the three stream filters with few positions.         *)
EXTENDS Stream, TLC
CONSTANTS W, K
VARIABLES f, newest     \* newest: the key inserted last, 0 when there is none
vars == <<f, newest>>
\* every combination of offsets is a key
Combos == [1..K -> 0..(W - 1)]
RECURSIVE Enum(_)
Enum(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o Enum(S \ {c})
Keys == Enum(Combos)

Init == /\ \E kind \in {"bs", "bssd", "rlbs"} : f = [kind |-> kind, w |-> W, k |-> K, pos |-> Keys, bits |-> NoBits(K)]
        /\ newest = 0
Insert(x) == f' \in SInsert(f, x) /\ newest' = x
Clear == f' = [f EXCEPT !.bits = NoBits(K)] /\ newest' = 0
Next == Clear \/ \E x \in DOMAIN Keys : Insert(x)
Spec == Init /\ [][Next]_vars

NewestReported == newest # 0 => SReports(f, newest)
EmptyReportsNothing == newest = 0 => SReported(f) = {}
OnePerPartition == newest # 0 => \A i \in 1..K : f.bits[i] # {}
\* what a product universe reports determines the contents: this is how traces are read back
Visible == \A i \in 1..K : f.bits[i] = {Keys[x][i] : x \in SReported(f)}
\* the relation used on traces is exactly the set of successors
Relation == \A x \in DOMAIN Keys :
    {g.bits : g \in SInsert(f, x)} = {nb \in [1..K -> SUBSET (0..(W - 1))] : MayBecome(f, x, nb)}
NoOp == [][newest' # 0 /\ SReports(f, newest') => f' = f]_vars
===========================================================================
