------------------------ MODULE TraceScalableBloom ------------------------
(* Recorded histories of ScalableBloomFilter.                               *)
EXTENDS Tr, ScalableBloom, Num

VARIABLES run, s
vars == <<l, run, s>>

\* 1 minus the product over the stages of 1 minus their estimate, in 10^-9
RECURSIVE Keep(_, _)
Keep(stages, n) ==
    IF n = 0 THEN G
    ELSE LET f == stages[n]
         IN MulDiv(Keep(stages, n - 1), G - PowG(MulDiv(Ones(f), G, f.len), f.k), G)

Obs(t, o) ==
    /\ J({"C01"}, t.ins \subseteq Range(o.rep))
    /\ J({"C01"}, t.ins = {} /\ t.ks[1] > 0 => o.rep = <<>>)
    /\ J({"C04"}, o.fc = Len(t.stages))
    /\ J({"C04"}, o.len = SLen(t))
    /\ J({"C04"}, o.ones = SOnes(t) /\ o.ones + o.zeros = o.len)
    /\ J({"C04"}, Range(o.rep) = SReported(t))
    /\ J({"C04"}, ~o.empty)
    /\ J({"C25"}, Near(o.fpp, (G - Keep(t.stages, Len(t.stages))) \div 1000, 3))
    /\ J({"C25"}, o.fpp >= 0 /\ o.fpp <= 1000000)
    /\ J({"C25"}, SOnes(t) = 0 => o.fpp = 0)

Init == l = 1 /\ run = <<>> /\ s = <<>>

Run == Is("run") /\ run' = E /\ s' = <<>>

New == /\ Is("new")
       /\ s' = SNew(E.b0, <<E.gp, E.gq>>, E.ks, run.keys)
       /\ Obs(s', E.o)
       /\ UNCHANGED run

Ins == /\ Is("ins")
       /\ s' = SInsert(s, E.x)
       /\ Obs(s', E.o)
       /\ UNCHANGED run

Clr == /\ Is("clr")
       /\ s' = SClear(s)
       /\ Obs(s', E.o)
       /\ UNCHANGED run

\* Many items at once: only counts are logged.  The stage sizes follow from the number of stages.
RECURSIVE Total(_, _, _)
Total(len, g, n) == IF n = 0 THEN 0 ELSE len + Total(NextLen(len, g), g, n - 1)
Bulk == /\ Is("bulk")
        /\ J({"C01"}, E.miss = 0 /\ E.lag = 0 /\ E.after = 0)
        /\ J({"C04"}, E.bad = 0 /\ E.len = Total(E.b0, <<E.gp, E.gq>>, E.fc))
        /\ J({"C04"}, E.ones + E.zeros = E.len /\ E.len2 = E.b0 /\ E.ones2 = 0 /\ E.fc2 = 1)
        /\ UNCHANGED <<run, s>>

Next == Run \/ New \/ Ins \/ Clr \/ Bulk
Spec == Init /\ [][Next]_vars

Inv == s # <<>> => SNoFalseNegative(s) /\ OldStagesHalfFull(s) /\ NewestNotHalfFull(s) /\ StageSizes(s)
===========================================================================
