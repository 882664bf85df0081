------------------------------- MODULE MCBits -----------------------------
(* A bit vector stored in blocks of B bits with a running count of ones, as *)
(* in the code, refined against the plain sequence of bits; every           *)
(* transition is also replayed on the real code.                            *)
EXTENDS Bits, TLC, Json
CONSTANTS N, B
VARIABLES v, blocks, count
vars == <<v, blocks, count>>

\* blocks: a sequence of sets of positions 0..B-1
BlocksOf(u) == [k \in 1..((u.n + B - 1) \div B) |-> {j \in 0..(B - 1) : (k - 1) * B + j \in u.s}]
Edge(op) == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<0>>, from |-> v, op |-> op, to |-> v']))
Init == v = Vec(0, {}) /\ blocks = <<>> /\ count = 0
At(i) == i % B
Blk(i) == (i \div B) + 1
Has(i) == At(i) \in blocks[Blk(i)]

Set(i, b) == /\ i < v.n
             /\ v' = Put(v, i, b)
             /\ blocks' = [blocks EXCEPT ![Blk(i)] = IF b = 1 THEN @ \cup {At(i)} ELSE @ \ {At(i)}]
             /\ count' = IF b = 1 THEN (IF Has(i) THEN count ELSE count + 1) ELSE (IF Has(i) THEN count - 1 ELSE count)
             /\ Edge(<<1, i, b>>)
FlipOne(i) == /\ i < v.n
              /\ v' = Flip(v, i)
              /\ blocks' = [blocks EXCEPT ![Blk(i)] = IF Has(i) THEN @ \ {At(i)} ELSE @ \cup {At(i)}]
              /\ count' = IF Has(i) THEN count - 1 ELSE count + 1
              /\ Edge(<<2, i>>)
PushBit(b) == /\ v.n < N
              /\ v' = Push(v, b)
              /\ LET bl == IF At(v.n) = 0 THEN Append(blocks, {}) ELSE blocks
                 IN blocks' = [bl EXCEPT ![Blk(v.n)] = IF b = 1 THEN @ \cup {At(v.n)} ELSE @]
              /\ count' = count + b
              /\ Edge(<<3, b>>)
PopBit == /\ v' = Pop(v)
          /\ IF v.n = 0 THEN UNCHANGED <<blocks, count>>
             ELSE /\ count' = IF Has(v.n - 1) THEN count - 1 ELSE count
                  /\ LET bl == [blocks EXCEPT ![Blk(v.n - 1)] = @ \ {At(v.n - 1)}]
                     IN blocks' = IF At(v.n - 1) = 0 THEN SubSeq(bl, 1, Len(bl) - 1) ELSE bl
          /\ Edge(<<4>>)
TruncTo(m) == /\ m <= v.n
              /\ v' = Trunc(v, m)
              /\ LET bl == SubSeq(blocks, 1, (m + B - 1) \div B)
                     cut == IF At(m) = 0 THEN bl ELSE [bl EXCEPT ![Len(bl)] = {j \in @ : j < At(m)}]
                 IN /\ blocks' = cut
                    /\ count' = Cardinality({p \in (1..Len(cut)) \X (0..(B - 1)) : p[2] \in cut[p[1]]})
              /\ Edge(<<5, m>>)
Fill(b) == /\ v' = SetAll(v, b)
           /\ blocks' = [k \in DOMAIN blocks |->
                           IF b = 0 THEN {} ELSE IF k = Len(blocks) /\ At(v.n) # 0 THEN 0..(At(v.n) - 1) ELSE 0..(B - 1)]
           /\ count' = IF b = 1 THEN v.n ELSE 0
           /\ Edge(<<6, b>>)
FlipEvery == /\ v' = FlipAll(v)
             /\ blocks' = [k \in DOMAIN blocks |->
                             LET full == IF k = Len(blocks) /\ At(v.n) # 0 THEN 0..(At(v.n) - 1) ELSE 0..(B - 1)
                             IN full \ blocks[k]]
             /\ count' = v.n - count
             /\ Edge(<<7>>)
Next == PopBit \/ FlipEvery \/ (\E b \in 0..1 : PushBit(b) \/ Fill(b))
        \/ (\E i \in 0..(N - 1) : FlipOne(i) \/ \E b \in 0..1 : Set(i, b))
        \/ (\E m \in 0..N : TruncTo(m))
Spec == Init /\ [][Next]_vars

Refines == blocks = BlocksOf(v)
Counted == count = Cardinality(v.s)
Inside == v.s \subseteq All(v.n)
BytesRound == LET w == FromBytes(ToBytes(v)) IN w.s = v.s /\ w.n = 8 * ((v.n + 7) \div 8)
===========================================================================
