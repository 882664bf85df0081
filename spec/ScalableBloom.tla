--------------------------- MODULE ScalableBloom --------------------------
(* A scalable Bloom filter: a sequence of plain filters, the newest last.   *)
EXTENDS Bloom

\* g = <<p, q>>: growth ratio p/q
NextLen(len, g) == (len * g[1] + g[2] - 1) \div g[2]

\* s: [stages, keys, ks, g, ins]; ks[n] is the probe count of the n-th stage
Stage(len, k, keys) == Empty("bloom", len, k, 0, keys)

SNew(b0, g, ks, keys) ==
    [stages |-> <<Stage(b0, ks[1], keys)>>, b0 |-> b0, g |-> g, ks |-> ks, keys |-> keys, ins |-> {}]

Newest(s) == s.stages[Len(s.stages)]
HalfFull(f) == 2 * Ones(f) >= f.len

SReports(s, x) == \E i \in DOMAIN s.stages : Reports(s.stages[i], x)
SReported(s) == {x \in DOMAIN s.keys : SReports(s, x)}

Grow(s) ==
    IF HalfFull(Newest(s))
    THEN [s EXCEPT !.stages = Append(@, Stage(NextLen(Newest(s).len, s.g), s.ks[Len(@) + 1], s.keys))]
    ELSE s

SInsert(s, x) ==
    LET t == IF SReports(s, x) THEN s
             ELSE [s EXCEPT !.stages[Len(s.stages)] = Insert(@, x)]
    IN Grow([t EXCEPT !.ins = @ \cup {x}])

SClear(s) == SNew(s.b0, s.g, s.ks, s.keys)

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
SOnes(s) == Sum([i \in DOMAIN s.stages |-> Ones(s.stages[i])], Len(s.stages))
SLen(s)  == Sum([i \in DOMAIN s.stages |-> s.stages[i].len], Len(s.stages))

SNoFalseNegative(s) == s.ins \subseteq SReported(s)
OldStagesHalfFull(s) == \A i \in 1..(Len(s.stages) - 1) : HalfFull(s.stages[i])
NewestNotHalfFull(s) == ~HalfFull(Newest(s))
StageSizes(s) == /\ s.stages[1].len = s.b0
                 /\ \A i \in 1..(Len(s.stages) - 1) : s.stages[i + 1].len = NextLen(s.stages[i].len, s.g)
===========================================================================
