----------------------------- MODULE MCCountMin ---------------------------
(* Count-min sketch as a machine: a grid of counters that every insertion   *)
(* and removal updates in place, for every assignment of columns to items.  *)
(* Each transition is printed as an EDGE line for the replay on the code.   *)
EXTENDS CountMin, TLC, Json
CONSTANTS N, Rows, Width, Most
VARIABLES grid, items, net, col
vars == <<grid, items, net, col>>
Amounts == (-2)..2

Init == /\ col \in [1..N -> [1..Rows -> 0..(Width - 1)]]
        /\ \A r \in 1..Rows : col[1][r] = 0          \* columns are interchangeable
        /\ net = [x \in 1..N |-> 0]
        /\ items = 0
        /\ grid = [r \in 1..Rows |-> [c \in 0..(Width - 1) |-> 0]]
Edge(op) == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<Rows, Width, col>>, from |-> net,
                                      op |-> op, to |-> net']))
Insert(x, v) == /\ net[x] + v \in (-Most)..Most
                /\ net' = [net EXCEPT ![x] = @ + v]
                /\ items' = items + v
                /\ grid' = [r \in 1..Rows |-> [grid[r] EXCEPT ![col[x][r]] = @ + v]]
                /\ UNCHANGED col
                /\ Edge(<<x, v>>)
Clear == /\ net' = [x \in 1..N |-> 0] /\ items' = 0
         /\ grid' = [r \in 1..Rows |-> [c \in 0..(Width - 1) |-> 0]]
         /\ UNCHANGED col
         /\ Edge(<<0, 0>>)
Next == Clear \/ \E x \in 1..N, v \in Amounts : Insert(x, v)
Spec == Init /\ [][Next]_vars

F == [rows |-> Rows, cols |-> Width, col |-> col, net |-> net]
Read(x) == [r \in 1..Rows |-> grid[r][col[x][r]]]
GridIsFunctionOfNet == /\ items = Total(F)
                       /\ \A x \in 1..N : Read(x) = Counters(F, x)
NeverUnder == (\A x \in 1..N : net[x] >= 0) => \A x \in 1..N : MinCount(F, x) >= net[x]
Alone(x) == \E r \in 1..Rows : Sharing(F, x, r) = {x}
ExactAlone == (\A x \in 1..N : net[x] >= 0) => \A x \in 1..N : Alone(x) => MinCount(F, x) = net[x]
ZeroWhenNothing == (\A x \in 1..N : net[x] = 0) =>
                     \A x \in 1..N : MinCount(F, x) = 0 /\ MeanCount(F, x) = 0 /\ BiasCount(F, x) = 0
BiasBelowMin == \A x \in 1..N : BiasCount(F, x) <= MinCount(F, x)
MeanBetween == \A x \in 1..N : LET v == Read(x)
                                   hi == CHOOSE a \in {v[r] : r \in 1..Rows} : \A r \in 1..Rows : v[r] <= a
                               IN SMin(v) <= MeanCount(F, x) /\ MeanCount(F, x) <= hi
\* the computation in 64-bit words agrees with the one in integers
ToWord(n) == IF n >= 0 THEN FromInt(n) ELSE Neg(FromInt(-n))
WF == [F EXCEPT !.net = [x \in 1..N |-> ToWord(net[x])]]
WordsAgree == \A x \in 1..N : /\ WMin(WF, x) = ToWord(MinCount(F, x))
                              /\ WMean(WF, x) = ToWord(MeanCount(F, x))
                              /\ WBias(WF, x) = ToWord(BiasCount(F, x))
\* rounding against its definition: nearest, halves away from zero
RoundOK == \A s \in (-20)..20, n \in 1..6 :
             LET q == RoundDiv(s, n) d == 2 * (q * n - s)
             IN /\ -n <= d /\ d <= n
                /\ d = n => s > 0
                /\ d = -n => s < 0
===========================================================================
