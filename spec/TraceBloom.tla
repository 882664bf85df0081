---------------------------- MODULE TraceBloom ----------------------------
(* Recorded histories of BloomFilter and PartitionedBloomFilter.            *)
EXTENDS Tr, Bloom, Num

VARIABLES run,      \* the "run" line: kind and the universe of keys
          fs        \* filters by instance number

vars == <<l, run, fs>>

Fill(f) == MulDiv(Ones(f), G, f.len)
Fpp(f)  == IF f.len = 0 THEN 0 ELSE PowG(Fill(f), f.k)

Obs(f, o) ==
    /\ J({"C01"}, f.ins \subseteq Range(o.rep))
    /\ J({"C01"}, f.ins = {} /\ f.k > 0 => o.rep = <<>>)
    /\ J({"C02", "C03"}, Range(o.rep) = Reported(f))
    /\ J({"C02", "C03"}, o.ones = Ones(f))
    /\ J({"C02"}, o.ones + o.zeros = f.len /\ o.len = f.len /\ o.k = f.k /\ o.w = f.w)
    /\ J({"C02"}, o.empty = (f.len = 0))
    /\ J({"C25"}, Near(o.fpp, Fpp(f), 4 + 2 * f.k))
    /\ J({"C25"}, o.fpp >= 0 /\ o.fpp <= G)
    /\ J({"C25"}, Ones(f) = 0 => o.fpp = 0)

Init == l = 1 /\ run = <<>> /\ fs = <<>>

Run == Is("run") /\ run' = E /\ fs' = <<>>

New == /\ Is("new")
       /\ LET f == Empty(run.kind, E.o.len, E.o.k, E.o.w, run.keys)
          IN /\ fs' = Append(fs, f @@ [hb |-> E.hb])
             /\ J({"C02"}, OnePerPartition(f) /\ (run.kind = "part" => f.len = f.k * f.w))
             /\ Obs(f, E.o)
       /\ UNCHANGED run

Ins == /\ Is("ins")
       /\ LET f == Insert(fs[E.id + 1], E.x)
          IN /\ fs' = [fs EXCEPT ![E.id + 1] = f]
             /\ Obs(f, E.o)
       /\ UNCHANGED run

Clr == /\ Is("clr")
       /\ LET f == Clear(fs[E.id + 1])
          IN /\ fs' = [fs EXCEPT ![E.id + 1] = f]
             /\ Obs(f, E.o)
       /\ UNCHANGED run

\* Plain filters compare equal exactly when hash builders, probe count and bits agree.
Eq == /\ Is("eq")
      /\ LET f == fs[E.id + 1]
             g == fs[E.b + 1]
         IN J({"C02"}, E.r = (f.hb = g.hb /\ f.k = g.k /\ f.len = g.len /\ f.bits = g.bits))
      /\ UNCHANGED <<run, fs>>

\* Many items at once: only the counts are logged.
Bulk == /\ Is("bulk")
        /\ J({"C01"}, E.miss = 0 /\ (E.k > 0 => E.after = 0))
        /\ J({"C02"}, E.ones + E.zeros = E.len /\ E.ones2 = E.ones /\ E.ones3 = 0)
        /\ J({"C02"}, E.ones <= E.n * E.k /\ E.ones <= E.len)
        /\ UNCHANGED <<run, fs>>

Next == Run \/ New \/ Ins \/ Clr \/ Eq \/ Bulk
Spec == Init /\ [][Next]_vars

\* the state invariants of the model hold along every recorded history as well
Inv == \A i \in DOMAIN fs : NoFalseNegative(fs[i]) /\ ExactUnion(fs[i])
===========================================================================
