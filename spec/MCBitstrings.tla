---------------------------- MODULE MCBitstrings --------------------------
(* A vector of W-bit strings packed into blocks of B bits with a running    *)
(* count of the non-zero ones, refined against the plain sequence.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, W, B
VARIABLES v, bits, blocks, occupied
vars == <<v, bits, blocks, occupied>>
\* bits: the positions that are one in the packed blocks; blocks: how many blocks there are
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Values == 0..(Pow(W) - 1)
BitAt(x, j) == (x \div Pow(j)) % 2
Spread(x, i) == {W * i + j : j \in {j \in 0..(W - 1) : BitAt(x, j) = 1}}
Slot(i) == (W * i)..(W * i + W - 1)
RECURSIVE Value(_, _)
Value(i, j) == IF j = W THEN 0 ELSE (IF W * i + j \in bits THEN Pow(j) ELSE 0) + Value(i, j + 1)
Get(i) == Value(i, 0)
Blocks(n) == (W * n + B - 1) \div B
n == Len(v)
Edge(op) == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<W>>, from |-> v, op |-> op, to |-> v']))

Init == v = <<>> /\ bits = {} /\ blocks = 0 /\ occupied = 0
Moves(old, new) == occupied' = occupied + (IF new # 0 THEN 1 ELSE 0) - (IF old # 0 THEN 1 ELSE 0)
Set(i, x) == /\ i < n
             /\ v' = [v EXCEPT ![i + 1] = x]
             /\ bits' = (bits \ Slot(i)) \cup Spread(x, i)
             /\ UNCHANGED blocks
             /\ Moves(Get(i), x)
             /\ Edge(<<1, i, x>>)
Push(x) == /\ n < N
           /\ v' = Append(v, x)
           /\ blocks' = Blocks(n + 1)
           /\ bits' = (bits \ Slot(n)) \cup Spread(x, n)
           /\ Moves(0, x)
           /\ Edge(<<2, x>>)
\* the popped slot is cleared: the block it shares with its neighbour stays
Pop == /\ n > 0
       /\ v' = SubSeq(v, 1, n - 1)
       /\ bits' = bits \ Slot(n - 1)
       /\ blocks' = Blocks(n - 1)
       /\ Moves(Get(n - 1), 0)
       /\ Edge(<<3>>)
Truncate(m) == /\ m < n
               /\ v' = SubSeq(v, 1, m)
               /\ bits' = {b \in bits : b < W * m}
               /\ blocks' = Blocks(m)
               /\ occupied' = Cardinality({i \in 0..(m - 1) : Get(i) # 0})
               /\ Edge(<<4, m>>)
Clear == v' = [i \in 1..n |-> 0] /\ bits' = {} /\ occupied' = 0 /\ UNCHANGED blocks /\ Edge(<<5>>)
Next == Pop \/ Clear \/ (\E x \in Values : Push(x) \/ \E i \in 0..(N - 1) : Set(i, x)) \/ \E m \in 0..N : Truncate(m)
Spec == Init /\ [][Next]_vars

Refines == \A i \in 0..(n - 1) : Get(i) = v[i + 1]
Counted == occupied = Cardinality({i \in 1..n : v[i] # 0})
NoStrayBits == \A b \in bits : b < W * n          \* a block shared with a popped slot holds no trace of it
Room == blocks = Blocks(n)
===========================================================================
