-------------------------- MODULE TraceHyperLogLog ------------------------
(* Recorded histories of several HyperLogLogs.  Each is described by the set *)
(* of items it stands for; o.bits is the estimate bit for bit.               *)
EXTENDS Tr, HyperLogLog

VARIABLES sk, places, seen
vars == <<l, sk, places, seen>>
\* places: for each error argument in use, p and the place of every key

Init == l = 1 /\ sk = <<>> /\ places = <<>> /\ seen = {}
\* `one` is the ratio estimate/1 of a sketch of a single item in 10^-9: m ln(m/(m-1)) tells m
PFor(one) == IF \E p \in 1..22 : Near(OneG[p], one, 20) THEN CHOOSE p \in 1..22 : Near(OneG[p], one, 20) ELSE 0
Run == /\ Is("run")
       /\ J({"C15"}, \A i \in DOMAIN E.ones : PFor(E.ones[i]) # 0)
       /\ places' = IF Prop = "C14" THEN <<>>
                    ELSE [i \in DOMAIN E.ones |->
                            [p |-> PFor(E.ones[i]), chunk |-> 0, at |-> [x \in DOMAIN E.keys |-> Place(E.keys[x], PFor(E.ones[i]))]]]
       /\ sk' = <<>>
       /\ seen' = {}

\* many items at once, in chunks
RunMany == /\ Is("runmany")
           /\ J({"C15"}, \A i \in DOMAIN E.ones : PFor(E.ones[i]) # 0 /\ TwoTo(PFor(E.ones[i])) % E.chunk = 0)
           /\ places' = IF Prop = "C14" THEN <<>> ELSE [i \in DOMAIN E.ones |-> [p |-> PFor(E.ones[i]), chunk |-> E.chunk]]
           /\ sk' = <<>>
           /\ seen' = {}

\* C14: equal sets of items under equal arguments give bit for bit equal estimates
Key(s) == <<s.err, s.items>>
SetOnly(s, o, sn) == \A q \in sn : q[1] = Key(s) => q[2] = o.bits
Empty(s, o) == o.empty = (s.items = {})
\* C15
Estimate(s, o) ==
    LET pl == places[s.err]
    IN \E hist \in {IF pl.chunk > 0 THEN BulkHist(s.items, pl.p, pl.chunk) ELSE HistOf(RegsOf({pl.at[x] : x \in s.items}))} :
          Estimates(pl.p, hist, o)
Shown(s, o, sn) == /\ J({"C14"}, SetOnly(s, o, sn))
                   /\ J({"C14"}, Empty(s, o))
                   /\ J({"C15"}, Estimate(s, o))
Note(s, o, sn) == IF Prop = "C15" THEN sn ELSE sn \cup {<<Key(s), o.bits>>}

New == /\ Is("new")
       /\ LET s == [err |-> E.err, salt |-> E.salt, items |-> {}]
          IN sk' = Append(sk, s) /\ Shown(s, E.o, seen) /\ seen' = Note(s, E.o, seen)
       /\ UNCHANGED places
Set(id, items) ==
    LET s == [sk[id] EXCEPT !.items = items]
    IN /\ sk' = [sk EXCEPT ![id] = s]
       /\ Shown(s, E.o, seen)
       /\ seen' = Note(s, E.o, seen)
       /\ UNCHANGED places
Ins == Is("ins") /\ Set(E.id, sk[E.id].items \cup Range(E.xs))
Clr == Is("clr") /\ Set(E.id, {})
\* the answers of a sketch that was not operated on
Ask == Is("ask") /\ Set(E.id, sk[E.id].items)
\* merging with a sketch of other size or hash builder panics and changes nothing
Mrg == /\ Is("mrg")
       /\ LET fits == sk[E.id].err = sk[E.b].err /\ sk[E.id].salt = sk[E.b].salt
          IN /\ J({"C14"}, E.ok = fits)
             /\ Set(E.id, IF E.ok THEN sk[E.id].items \cup sk[E.b].items ELSE sk[E.id].items)

Next == Run \/ RunMany \/ New \/ Ins \/ Clr \/ Mrg \/ Ask
Spec == Init /\ [][Next]_vars
===========================================================================
