--------------------------- MODULE TraceAccuracy --------------------------
(* Recorded experiments: collections under real hash builders, as the        *)
(* arguments of their constructors asked for them, and how often they erred. *)
EXTENDS Tr, Accuracy
VARIABLE x
vars == <<l, x>>
Init == l = 1 /\ x = 0
Run == Is("run") /\ UNCHANGED x
Is27(e) == Is(e) /\ UNCHANGED x

P == Nano(E.m, E.k)
\* what was asked for, at the most items that were announced
Asked == CASE E.kind \in {"bloom", "part"} -> IF E.via = "bn" THEN TRUE ELSE NotTooMany(E.wrong, E.asked, Times100(P, Spread(E.probes, E.bits)))
           [] E.kind \in {"cuckoo", "quot"} -> NotTooMany(E.wrong, E.asked, Times100(P, 105))
           [] E.kind = "sbloom" -> NotTooMany(E.wrong, E.asked, Times100(StageSum(P, E.r, E.stages), Spread(E.probes, E.bits)))
           [] E.kind = "scuckoo" -> NotTooMany(E.wrong, E.asked, Times100(StageSum(P, E.r, E.stages), 105))
           [] E.kind = "stream" -> TRUE
\* what the fill of the filter makes of it, and what the filter says itself
Filled == E.kind \in {"bloom", "part", "stream"} =>
             NotTooMany(E.wrong, E.asked, Times100(FillPower(E.ones, E.bits, E.probes), 112))
Said == E.est >= 0 => /\ NotTooMany(E.wrong, E.asked, Times100(E.est, 115))
                      /\ NotTooFew(E.wrong, E.asked, Times100(E.est, 80))
Fpr == Is27("fpr") /\ J({"C27"}, E.missed = 0 /\ Asked /\ Filled /\ Said)

\* count-min: more than epsilon times the total too much for at most a share delta of the items
TooMuch == Is27("over") /\ J({"C27"}, E.under = 0 /\ NotTooMany(E.over, E.asked, Times100(P, 125)))

\* HyperLogLog: the mean square of the relative errors, in 10^-8, over independent sketches
Square(e) == LET d == MulDiv(Abs(e - E.n), 10000, E.n) IN IF d > 6000 THEN 36000000 ELSE d * d
RECURSIVE Squares(_)
Squares(i) == IF i = 0 THEN 0 ELSE Square(E.ests[i]) + Squares(i - 1)
Card == /\ Is27("card")
        /\ J({"C27"}, LET err == P \div 100000
                          n == Len(E.ests)
                      IN Squares(n) \div n <= ((7 * err * err) \div 2 + 60000 \div E.n + 1 + 90000))

\* minhash: the share of equal entries is the Jaccard similarity
Mh == /\ Is27("mh")
      /\ J({"C27"}, LET j == MulDiv(G, E.common, E.union)
                    IN NotTooMany(E.equal \div 2, E.asked \div 2, j) /\ NotTooFew(E.equal \div 2 + 1, E.asked \div 2, j))
\* simhash: the share of differing bits is the angle between the sets over pi: a half for disjoint ones, a third for half equal ones
Sh == /\ Is27("sh")
      /\ J({"C27"}, LET j == G \div E.den
                    IN NotTooMany(E.differ, E.asked, Times100(j, 103)) /\ NotTooFew(E.differ, E.asked, Times100(j, 97)))

Next == Run \/ Fpr \/ TooMuch \/ Card \/ Mh \/ Sh
Spec == Init /\ [][Next]_vars
===========================================================================
