---------------------------- MODULE TraceCuckoo ---------------------------
(* Recorded histories of CuckooFilter.                                      *)
EXTENDS Tr, Cuckoo, Fpp

VARIABLES f       \* [bl, e, fb, cap, cls (class of each key), stored, belief, tiny, fpp]
vars == <<l, f>>

NoFilter == [bl |-> 0]

Obs(g, o) ==
    /\ J({"C05"}, Range(o.rep) = {x \in DOMAIN g.cls : g.cls[x] \in g.stored})
    /\ J({"C06"}, o.len + o.extra = Cardinality(g.stored))
    /\ J({"C06"}, o.len <= o.cap /\ o.cap = g.bl * g.e)
    /\ J({"C06"}, o.nf = (o.extra > 0))
    /\ J({"C06"}, o.empty = (o.len = 0))
    /\ J({"C06"}, o.bl = g.bl /\ o.e = g.e /\ o.fb = g.fb)
    /\ J({"C06"}, g.tiny => g.belief # {})
    /\ J({"C25"}, Near(o.fpp, CuckooFpp(g.fb, g.e, o.len, g.bl * g.e), 40))
    /\ J({"C25"}, o.fpp >= 0 /\ o.fpp <= G /\ (g.stored = {} => o.fpp = 0))

Fits(p, o) == TableCount(p) = o.len /\ SpillCount(p) = o.extra

Init == l = 1 /\ f = NoFilter

Run == Is("run") /\ f' = NoFilter

New == /\ Is("new")
       /\ LET o == E.o
              cls == [x \in DOMAIN E.keys |->
                        Class(E.keys[x].chain, E.keys[x].h1, E.keys[x].hf, o.fb, o.bl)]
          IN f' = [bl |-> o.bl, e |-> o.e, fb |-> o.fb, cls |-> cls, stored |-> {}, belief |-> {<<>>},
                   tiny |-> (Prop \in {"C06", "ALL"} /\ Cardinality(Range(cls)) <= 8), extra |-> 0, fpp |-> o.fpp]
       /\ Obs(f', E.o)

Ins == /\ Is("ins")
       /\ LET c == f.cls[E.x]
              o == E.o
              known == c \in f.stored
          IN /\ f' = [f EXCEPT !.stored = @ \cup {c}, !.extra = o.extra, !.fpp = o.fpp,
                               !.belief = IF ~f.tiny THEN @
                                          ELSE {p \in (IF known THEN @ ELSE UNION {PlaceNew(a, c, f.e) : a \in @}) : Fits(p, o)}]
             /\ J({"C06"}, o.extra \in {f.extra, f.extra + 1})
             /\ J({"C06"}, known => o.extra = f.extra)
             /\ J({"C06"}, o.extra > f.extra => MaySpill(f.stored, c, f.e))
             /\ J({"C25"}, o.fpp >= f.fpp)
             /\ Obs(f', o)

Rem == /\ Is("rem")
       /\ LET c == f.cls[E.x]
              o == E.o
          IN /\ f' = [f EXCEPT !.stored = @ \ {c}, !.extra = o.extra, !.fpp = o.fpp,
                               !.belief = IF ~f.tiny THEN @ ELSE {p \in {PlaceRemove(a, c) : a \in @} : Fits(p, o)}]
             /\ J({"C06"}, o.extra \in {f.extra, f.extra - 1} /\ (c \notin f.stored => o.extra = f.extra))
             /\ Obs(f', o)

Clr == /\ Is("clr")
       /\ f' = [f EXCEPT !.stored = {}, !.belief = {<<>>}, !.extra = 0, !.fpp = E.o.fpp]
       /\ Obs(f', E.o)

Next == Run \/ New \/ Ins \/ Rem \/ Clr
Spec == Init /\ [][Next]_vars

Inv == (f.bl > 0 /\ f.tiny) => \A p \in f.belief : DOMAIN p = f.stored /\ ValidPlacement(p, f.e)
===========================================================================
