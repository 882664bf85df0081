--------------------------- MODULE MCHyperLogLog --------------------------
(* Two sketches over few items as machines that update registers in place,  *)
(* with every assignment of registers and ranks to the items, and merging.  *)
EXTENDS HyperLogLog, TLC, Json
CONSTANTS N, P, MaxRank, Replay
VARIABLES place, set, reg
vars == <<place, set, reg>>
M == 0..(TwoTo(P) - 1)
Blank == [i \in M |-> 0]
Max(a, b) == IF a < b THEN b ELSE a

Init == /\ place \in [1..N -> M \X (1..MaxRank)]
        /\ set = [s \in 1..2 |-> {}]
        /\ reg = [s \in 1..2 |-> Blank]
Edge(op) == Replay => PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<P, place>>, from |-> set,
                                      op |-> op, to |-> set']))
Insert(s, x) == /\ set' = [set EXCEPT ![s] = @ \cup {x}]
                /\ reg' = [reg EXCEPT ![s][place[x][1]] = Max(@, place[x][2])]
                /\ UNCHANGED place /\ Edge(<<1, s, x>>)
Merge(s, t) == /\ set' = [set EXCEPT ![s] = @ \cup set[t]]
               /\ reg' = [reg EXCEPT ![s] = [i \in M |-> Max(reg[s][i], reg[t][i])]]
               /\ UNCHANGED place /\ Edge(<<2, s, t>>)
Clear(s) == set' = [set EXCEPT ![s] = {}] /\ reg' = [reg EXCEPT ![s] = Blank] /\ UNCHANGED place /\ Edge(<<0, s, 0>>)
Next == \E s \in 1..2 : Clear(s) \/ (\E x \in 1..N : Insert(s, x)) \/ (\E t \in 1..2 : Merge(s, t))
Spec == Init /\ [][Next]_vars

Full(f) == [i \in M |-> IF i \in DOMAIN f THEN f[i] ELSE 0]
FunctionOfSet == \A s \in 1..2 : reg[s] = Full(RegsOf({place[x] : x \in set[s]}))
\* the estimate never falls when registers rise, is 0 only for nothing
Nonzero(s) == [i \in {i \in M : reg[s][i] > 0} |-> reg[s][i]]
Bracket == \A s \in 1..2 : Leq(RawLow(HistOf(Nonzero(s)), P), RawHigh(HistOf(Nonzero(s)), P), 0)
Monotone == (\A i \in M : reg[1][i] <= reg[2][i]) => Leq(RawLow(HistOf(Nonzero(1)), P), RawHigh(HistOf(Nonzero(2)), P), 2)
EmptyZero == \A s \in 1..2 : (set[s] = {}) <=> (DOMAIN Nonzero(s) = {})
LinearZero == LnRatio(P, 0)[1] = 0
===========================================================================
