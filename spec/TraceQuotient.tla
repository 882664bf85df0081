--------------------------- MODULE TraceQuotient --------------------------
(* Recorded histories of QuotientFilter.  The state is the set of stored    *)
(* fingerprints (quotient and remainder bits of the hash); MCQuotient shows *)
(* that the slot algorithm implements this set.                             *)
EXTENDS Tr, Word, Fpp

VARIABLES f       \* [q, r, fp (fingerprint of each key), stored, fpp]
vars == <<l, f>>

NoFilter == [q |-> 0]
LowWord(w, n) == [j \in 1..4 |-> IF n >= 16 * j THEN w[j]
                                 ELSE IF n <= 16 * (j - 1) THEN 0
                                 ELSE w[j] % TwoTo(n - 16 * (j - 1))]
Cap(g) == TwoTo(g.q)

Obs(g, o) ==
    /\ J({"C08"}, Range(o.rep) = {x \in DOMAIN g.fp : g.fp[x] \in g.stored})
    /\ J({"C09"}, o.len = Cardinality(g.stored))
    /\ J({"C09"}, o.empty = (o.len = 0))
    /\ J({"C09"}, o.cap = Cap(g) /\ o.q = g.q /\ o.r = g.r)
    /\ J({"C25"}, Near(o.fpp, QuotientFpp(Cardinality(g.stored), Cap(g), g.r), 10))
    /\ J({"C25"}, o.fpp >= 0 /\ o.fpp <= G /\ (g.stored = {} => o.fpp = 0))

Init == l = 1 /\ f = NoFilter
Run == Is("run") /\ f' = NoFilter

New == /\ Is("new")
       /\ f' = [q |-> E.o.q, r |-> E.o.r, fp |-> [x \in DOMAIN E.keys |-> LowWord(E.keys[x], E.o.q + E.o.r)],
                stored |-> {}, fpp |-> E.o.fpp]
       /\ Obs(f', E.o)

\* A new fingerprint does not fit into a full filter: the insertion panics and changes nothing.
Ins == /\ Is("ins")
       /\ LET c == f.fp[E.x]
              fits == c \in f.stored \/ Cardinality(f.stored) < Cap(f)
          IN /\ E.ok = fits
             /\ f' = IF fits THEN [f EXCEPT !.stored = @ \cup {c}, !.fpp = E.o.fpp] ELSE [f EXCEPT !.fpp = E.o.fpp]
             /\ J({"C25"}, E.o.fpp >= f.fpp)
             /\ Obs(f', E.o)

Rem == /\ Is("rem")
       /\ f' = [f EXCEPT !.stored = @ \ {f.fp[E.x]}, !.fpp = E.o.fpp]
       /\ Obs(f', E.o)

Clr == /\ Is("clr")
       /\ f' = [f EXCEPT !.stored = {}, !.fpp = E.o.fpp]
       /\ Obs(f', E.o)

Next == Run \/ New \/ Ins \/ Rem \/ Clr
Spec == Init /\ [][Next]_vars
Inv == f.q > 0 => Cardinality(f.stored) <= Cap(f)
===========================================================================
