----------------------------- MODULE TraceSize ----------------------------
(* Recorded constructor calls.  ok: the constructor returned; works: items   *)
(* can be inserted and found in what it returned; bytes: its serialized size. *)
EXTENDS Tr, Size
VARIABLE x
vars == <<l, x>>
Init == l = 1 /\ x = 0
Run == Is("run") /\ UNCHANGED x

\* genuine defects that are not repaired, by their exact arguments
Findings == {f \in Range(JsonDeserialize(IOEnv.KNOWN).findings) : f.property = "C24"}
Known(via, a, b) == \E f \in Findings : f.via = via /\ f.args = <<a, b>>
Report(via, a, b) == PrintT(<<"KNOWN-FINDING", (CHOOSE f \in Findings : f.via = via /\ f.args = <<a, b>>).what>>)
Works(via, a, b) == E.works \/ (Known(via, a, b) /\ Report(via, a, b))

\* the collection keeps as many bits as it says, and not much besides
Room(bits, parts) == E.bytes >= bits \div 8 /\ E.bytes <= bits \div 8 + 400 + 64 * parts
Space(bits) == Room(bits, 0)

Is24(e) == Is(e) /\ UNCHANGED x
Bloom ==
    /\ Is24("bloom")
    /\ J({"C24"},
         /\ E.ok /\ E.works /\ Space(E.bits)
         /\ CASE E.via = "np" -> BloomBits(E.n, E.m, E.k, E.bits) /\ BloomProbes(E.bits, E.n, E.probes)
              [] E.via = "bn" -> E.bits = E.b /\ BloomProbes(E.bits, E.n, E.probes)
              [] E.via = "bp" -> E.bits = E.b /\ \E n \in BloomItems(E.b, E.m, E.k) : BloomProbes(E.bits, n, E.probes))
Part ==
    /\ Is24("part")
    /\ J({"C24"},
         /\ E.ok /\ E.works /\ Space(E.bits)
         /\ PartProbes(E.m, E.k, E.probes)
         /\ E.bits = E.probes * E.width
         /\ CASE E.via = "np" -> PartBits(E.n, E.m, E.k, E.probes, E.width)
              [] E.via = "bp" -> E.width = E.b)
Stream ==
    /\ Is24("stream")
    /\ J({"C24"}, /\ E.ok /\ E.works /\ Room(E.bits, E.probes)
                  /\ StreamProbes(E.m, E.k, E.probes) /\ E.width = E.b /\ E.bits = E.probes * E.width)
Table == /\ E.works
         /\ E.buckets = Buckets(E.n, E.entries)
         /\ E.cap = E.buckets * E.entries
         /\ Space(E.fb * E.cap)
Cuckoo ==
    /\ Is24("cuckoo")
    /\ J({"C24"},
         CASE E.via = "n" -> IF E.n = 0 THEN ~E.ok ELSE E.ok /\ Table /\ E.fb = 8 /\ E.entries = 4
           [] E.via = "fe" -> IF E.n = 0 \/ E.f \notin 1..64 \/ E.e = 0 THEN ~E.ok
                              ELSE E.ok /\ Table /\ E.fb = E.f /\ E.entries = E.e
           [] E.via = "pe" -> IF E.n = 0 \/ E.e = 0 THEN ~E.ok
                              ELSE /\ E.ok /\ Table /\ E.entries = E.e
                                   /\ E.fb \in 1..64 /\ (WideEnough(E.fb, E.e, E.m, E.k, 1000) \/ E.fb = 64)
           [] E.via = "pf" -> IF E.n = 0 \/ E.f \notin 1..64 \/ Impossible(E.f, E.m, E.k) THEN ~E.ok
                              ELSE IF ~E.ok THEN ~Possible(E.f, E.m, E.k)
                              ELSE /\ Table /\ E.fb = E.f /\ E.entries >= 1
                                   /\ WideEnough(E.fb, E.entries, E.m, E.k, 1000))
\* how many bits a full-width hash leaves for the remainder
Feasible == \E q \in 1..20 : Quotients(E.c, q) /\ Below(E.c, q, 63 - q, E.m, E.k, 0)
Quot ==
    /\ Is24("quot")
    /\ J({"C24"},
         CASE E.via = "qr" -> IF E.q = 0 \/ E.r = 0 \/ E.q + E.r > 64 THEN ~E.ok
                              ELSE /\ E.ok /\ E.qb = E.q /\ E.rb = E.r /\ E.cap = 2 ^ E.q
                                   /\ Works("qr", E.q, E.r)
                                   /\ Space((E.rb + 3) * E.cap)
           [] E.via = "cp" -> IF E.c = 0 \/ E.bad THEN ~E.ok
                              ELSE IF ~E.ok THEN ~Feasible
                              ELSE /\ E.rb >= 1 /\ E.qb >= 1 /\ E.qb + E.rb <= 64
                                   /\ E.cap = 2 ^ E.qb /\ Quotients(E.c, E.qb)
                                   /\ Below(E.c, E.qb, E.rb, E.m, E.k, 1000)
                                   /\ Works("qr", E.qb, E.rb)
                                   /\ Space((E.rb + 3) * E.cap))
Sketch ==
    /\ Is24("sketch")
    /\ J({"C24"},
         /\ E.ok /\ E.works /\ Space(64 * E.rows * E.cols)
         /\ CASE E.via = "rc" -> E.rows = E.r /\ E.cols = E.c
              [] E.via = "ed" -> Rows(E.dm, E.dk, E.rows) /\ Cols(E.m, E.k, E.cols)
         /\ Near(E.conf, 271828183, 2)          \* confidence * cols = e
         /\ Near(E.err, 0, 10))                 \* ln(error) + rows = 0
PFor(one) == IF \E p \in 1..22 : Near(OneG[p], one, 20) THEN CHOOSE p \in 1..22 : Near(OneG[p], one, 20) ELSE 0
Hll ==
    /\ Is24("hll")
    /\ J({"C24"},
         IF E.bad THEN ~E.ok
         ELSE /\ E.ok /\ E.works
              /\ Registers(PFor(E.one), E.m, E.k)
              /\ Space(8 * (2 ^ PFor(E.one))))
Minh == /\ Is24("minh") /\ J({"C24"}, E.ok /\ E.count = E.c /\ E.hashes = E.c)
\* scalable filters start with one stage for their first argument
Stage == /\ Is24("stage")
         /\ J({"C24"}, /\ E.ok /\ E.works /\ E.stages = 1
                       /\ CASE E.via = "bloom" -> E.cap = E.n
                            [] E.via = "cuckoo" -> E.cap = 4 * Buckets(E.n, 4) /\ E.entries = 4
                            [] E.via = "entries" -> E.cap = E.e * Buckets(E.n, E.e) /\ E.entries = E.e)

Next == Run \/ Bloom \/ Part \/ Stream \/ Cuckoo \/ Quot \/ Sketch \/ Hll \/ Minh \/ Stage
Spec == Init /\ [][Next]_vars
===========================================================================
