------------------------------ MODULE MCBloom -----------------------------
(* Exhaustive model of plain and partitioned Bloom filters: every filter    *)
(* with few bits, probes and keys, every order of insertions and clears.    *)
(* Each transition is printed as an EDGE line for the replay on the code.   *)
EXTENDS Bloom, TLC, Json
CONSTANTS MaxLen, MaxK, MaxW
VARIABLES f, cfg
vars == <<f, cfg>>

Base == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 1>>, <<3, 2>> >>
KeySets == { <<i, j, m>> : i, j, m \in 1..Len(Base) }
Triples == { t \in KeySets : t[1] < t[2] /\ t[2] < t[3] }
KeysOf(t) == [i \in 1..3 |-> <<FromInt(Base[t[i]][1]), FromInt(Base[t[i]][2])>>]

Init == \/ \E len \in 1..MaxLen, k \in 1..MaxK, t \in Triples :
             /\ cfg = <<0, len, k, t>>
             /\ f = Empty("bloom", len, k, 0, KeysOf(t))
        \/ \E w \in 1..MaxW, k \in 1..MaxK, t \in Triples :
             /\ cfg = <<1, w, k, t>>
             /\ f = Empty("part", w * k, k, w, KeysOf(t))

Edge(op) == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> cfg, from |-> <<f.bits, f.ins>>,
                                      op |-> op, to |-> <<f'.bits, f'.ins>>]))
DoInsert(x) == f' = Insert(f, x) /\ UNCHANGED cfg /\ Edge(<<x>>)
DoClear == f' = Clear(f) /\ UNCHANGED cfg /\ Edge(<<0>>)
Next == DoClear \/ \E x \in 1..3 : DoInsert(x)
Spec == Init /\ [][Next]_vars

I1 == NoFalseNegative(f)
I2 == ClearedIsEmpty(f)
I3 == ExactUnion(f)
I4 == OnePerPartition(f)
\* the state is a function of the set of inserted items: repetition and order do not matter
Repeat == \A x \in f.ins : Insert(f, x) = f
Commute == \A x, y \in 1..3 : Insert(Insert(f, x), y) = Insert(Insert(f, y), x)
===========================================================================
