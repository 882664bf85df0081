----------------------------- MODULE TraceWide ----------------------------
(* Recorded histories of collections with more than 2^32 bits or slots.     *)
EXTENDS Tr, Wide

VARIABLES v
vars == <<l, v>>

Nothing == [kind |-> "none"]
Init == l = 1 /\ v = Nothing
Run == Is("run") /\ v' = Nothing

\* ---- BitVec and BitstringVec
Vec == /\ Is("wvec")
       /\ v' = [kind |-> E.kind, n |-> E.n, width |-> E.width, at |-> <<>>]
Vecs == {"C22", "C23"}
Shown(u, o) ==
    /\ J(Vecs, o.len = u.n /\ o.occ = Cardinality(DOMAIN u.at))
    /\ J(Vecs, u.kind = "bits" => o.zeros = Sub(u.n, FromInt(o.occ)))
    /\ J(Vecs, \A j \in DOMAIN o.seen :
                  LET i == o.seen[j][1] x == o.seen[j][2]
                  IN IF u.kind = "strs" THEN x = Value(u, i)
                     ELSE x = (IF ~Less(i, u.n) THEN -1 ELSE IF Value(u, i) = Zero THEN 0 ELSE 1))
Put == /\ Is("wput")
       /\ LET in == Less(E.i, v.n)
              u == CASE E.op = "cut" -> Cut(v, E.i)
                     [] ~in -> v
                     [] E.op = "put" -> Write(v, E.i, E.x)
                     [] E.op = "flip" -> Write(v, E.i, IF Value(v, E.i) = Zero THEN FromInt(1) ELSE Zero)
          IN /\ J(Vecs, E.ok = (in \/ E.op = "cut"))
             /\ v' = u
             /\ Shown(u, E.o)

\* ---- Bloom filters
Exact == {"C02", "C03", "C04", "C11"}
Never == {"C01", "C04", "C10"}
Flt == /\ Is("wset")
       /\ v' = [kind |-> E.kind, len |-> E.len, pos |-> [x \in DOMAIN E.keys |-> WProbes(E.kind, E.len, E.w, E.k, E.keys[x])],
                bits |-> {}, ins |-> {}]
       /\ J(Exact, E.kind = "part" => E.len = TimesFrom(E.w, E.k))
Ins == /\ Is("wins")
       /\ LET u == [v EXCEPT !.bits = @ \cup v.pos[E.x], !.ins = @ \cup {E.x}]
              o == E.o
          IN /\ v' = u
             /\ J(Never, u.ins \subseteq Range(o.rep))
             /\ J(Exact, Range(o.rep) = {x \in DOMAIN u.pos : u.pos[x] \subseteq u.bits})
             /\ J(Exact, o.ones = Cardinality(u.bits) /\ o.len = u.len)

\* ---- quotient and cuckoo filters
Tab == /\ Is("wtab")
       /\ v' = [kind |-> E.kind, stored |-> {},
                cls |-> [x \in DOMAIN E.keys |-> IF E.kind = "cuckoo" THEN CClass(E.keys[x], E.hf[x], E.q, E.fb)
                                                 ELSE QClass(E.keys[x], E.q, E.fb)]]
Tables == {"C05", "C06", "C08", "C09"}
Held(u, o) == /\ v' = u
              /\ J({"C05", "C08"}, Range(o.rep) = {x \in DOMAIN u.cls : u.cls[x] \in u.stored})
              /\ J({"C06", "C08", "C09"}, o.len = Cardinality(u.stored))
TIns == Is("tins") /\ Held([v EXCEPT !.stored = @ \cup {v.cls[E.x]}], E.o)
TRem == Is("trem") /\ Held([v EXCEPT !.stored = @ \ {v.cls[E.x]}], E.o)

Next == Run \/ Vec \/ Put \/ Flt \/ Ins \/ Tab \/ TIns \/ TRem
Spec == Init /\ [][Next]_vars
===========================================================================
