-------------------------- MODULE MCScalableBloom -------------------------
(* Exhaustive model of the scalable Bloom filter with few bits and keys.    *)
(* With Replay, each transition is printed as an EDGE line for the code.    *)
EXTENDS ScalableBloom, TLC, Json
CONSTANTS MaxStages, MaxB0, Replay
VARIABLES s
Base == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 1>>, <<3, 2>>, <<5, 3>> >>
Keys == [i \in DOMAIN Base |-> <<FromInt(Base[i][1]), FromInt(Base[i][2])>>]
Ks == { [i \in 1..(MaxStages + 1) |-> 1], [i \in 1..(MaxStages + 1) |-> IF i = 1 THEN 1 ELSE 2], [i \in 1..(MaxStages + 1) |-> 2] }
Init == \E b0 \in 1..MaxB0, g \in {<<1, 1>>, <<3, 2>>, <<2, 1>>}, ks \in Ks : s = SNew(b0, g, ks, Keys)
Whole(u) == <<[i \in DOMAIN u.stages |-> u.stages[i].bits], u.ins>>
Edge(op) == Replay => PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), cfg |-> <<s.b0, s.g[1], s.g[2], s.ks[1], s.ks[2]>>,
                                                from |-> Whole(s), op |-> op, to |-> Whole(s')]))
DoInsert(x) == Len(s.stages) <= MaxStages /\ s' = SInsert(s, x) /\ Edge(<<x>>)
DoClear == s' = SClear(s) /\ Edge(<<0>>)
Next == DoClear \/ \E x \in DOMAIN Keys : DoInsert(x)
Spec == Init /\ [][Next]_s
I1 == SNoFalseNegative(s)
I2 == s.ins = {} => SReported(s) = {}
I3 == OldStagesHalfFull(s)
I4 == NewestNotHalfFull(s)
I5 == StageSizes(s)
AtMostOne == [][\/ Len(s'.stages) \in {Len(s.stages), Len(s.stages) + 1}
                \/ s' = SClear(s)]_s
Monotone == [][s' = SClear(s) \/ SReported(s) \subseteq SReported(s')]_s
===========================================================================
