------------------------ MODULE TraceScalableCuckoo -----------------------
(* Recorded histories of ScalableCuckooFilter.  A stage is the set of       *)
(* classes it stores; the size of the n-th stage is what the plain filter's *)
(* constructor yields for the prescribed item count (logged in the table).  *)
EXTENDS Tr, ScalableCuckoo, Fpp

VARIABLES s     \* [stages, t0 (line with the size table), e, fpp, pl (placements the newest stage may have, {}: not tracked)]
vars == <<l, s>>

Nothing == [stages |-> <<>>]

RECURSIVE Pow2Ceil(_, _)
Pow2Ceil(n, p) == IF p >= n THEN p ELSE Pow2Ceil(n, 2 * p)

\* classes of the keys in the n-th stage of the logged table
Classes(t) == TLCEval([x \in DOMAIN t.keys |-> Class(t.keys[x].chain, t.keys[x].h1, t.keys[x].hf, t.fb, t.bl)])
Stage(t) == [cls |-> Classes(t), bl |-> t.bl, fb |-> t.fb, stored |-> {}]

\* the table follows the growth rule: items(n+1) = ceil(capacity(n) * g)
TableOk(tab, e, g, items) ==
    /\ tab[1].items = items
    /\ \A n \in DOMAIN tab : tab[n].bl = Pow2Ceil((tab[n].items + e - 1) \div e, 1)
    /\ \A n \in 1..(Len(tab) - 1) : tab[n + 1].items = (tab[n].bl * e * g[1] + g[2] - 1) \div g[2]

\* placements of an empty stage; only C07 needs them
Fresh == IF Prop \in {"C07", "ALL"} THEN {<<>>} ELSE {}

Cap(st, e) == st.bl * e
HoldsIn(st, x) == st.cls[x] \in st.stored
Reports(t, x) == \E i \in DOMAIN t.stages : HoldsIn(t.stages[i], x)

RECURSIVE SumTo(_, _)
SumTo(h, n) == IF n = 0 THEN 0 ELSE h[n] + SumTo(h, n - 1)
Total(t, F(_)) == SumTo([i \in DOMAIN t.stages |-> F(t.stages[i])], Len(t.stages))
Stored(st) == Cardinality(st.stored)

\* spilled items are not in the estimate, so it may lie between the two loads
RECURSIVE KeepG(_, _, _)
KeepG(t, n, slack) ==
    IF n = 0 THEN G
    ELSE LET st == t.stages[n]
             occ == IF Stored(st) > slack[n] THEN Stored(st) - slack[n] ELSE 0
                      cap == Cap(st, t.e)
         IN MulDiv(TLCEval(KeepG(t, n - 1, slack)), G - TLCEval(CuckooFpp(st.fb, t.e, IF occ > cap THEN cap ELSE occ, cap)), G)

Obs(t, o) ==
    LET n == Len(t.stages)
        none == [i \in 1..n |-> 0]
        spill == [i \in 1..n |-> IF i < n THEN 1 ELSE 0]
    IN
    /\ J({"C07"}, Range(o.rep) = {x \in DOMAIN t.stages[1].cls : Reports(t, x)})
    /\ J({"C07"}, o.fc = n)
    /\ J({"C07"}, o.len = Total(t, Stored))
    /\ J({"C07"}, o.empty = (o.len = 0))
    /\ J({"C07"}, o.cap = Total(t, LAMBDA st : Cap(st, t.e)) /\ o.e = t.e)
    /\ J({"C25"}, o.fpp <= G - KeepG(t, n, none) + 60 /\ o.fpp >= G - KeepG(t, n, spill) - 60)
    /\ J({"C25"}, o.fpp >= 0 /\ o.fpp <= G /\ (o.len = 0 => o.fpp = 0))

Init == l = 1 /\ s = Nothing

Run == Is("run") /\ s' = Nothing

New == /\ Is("new")
       /\ J({"C07"}, TableOk(E.tab, E.e, <<E.gp, E.gq>>, E.items))
       /\ s' = [stages |-> <<Stage(E.tab[1])>>, t0 |-> l, e |-> E.e, fpp |-> E.o.fpp, pl |-> Fresh]
       /\ Obs(s', E.o)

\* after an insertion: the newest stage is full, or holds a spilled item, exactly when a stage is added
Grown(t) == [t EXCEPT !.stages = Append(@, Stage(Trace[t.t0].tab[Len(@) + 1])), !.pl = Fresh]
Ins == /\ Is("ins")
       /\ LET n == Len(s.stages)
              st == s.stages[n]
              c == st.cls[E.x]
              known == Reports(s, E.x)
              t == IF known THEN s ELSE [s EXCEPT !.stages[n].stored = @ \cup {c}]
              now == t.stages[n].stored
              tracked == s.pl # {} /\ Cardinality(now) <= 6
              new == IF known THEN s.pl ELSE UNION {PlaceNew(a, c, s.e) : a \in s.pl}
              rest == {p \in new : ~Ripe(p, s.e, Cap(st, s.e))}
          IN /\ \/ /\ J({"C07"}, MayGrow(st.stored, now, c, known, s.e, Cap(st, s.e)))
                   /\ tracked => new \ rest # {}
                   /\ s' = [Grown(t) EXCEPT !.fpp = E.o.fpp]
                \/ /\ J({"C07"}, MayStay(st.stored, now, c, known, s.e, Cap(st, s.e)))
                   /\ tracked => rest # {}
                   /\ s' = [t EXCEPT !.fpp = E.o.fpp, !.pl = IF tracked THEN rest ELSE {}]
             /\ Len(s'.stages) = E.o.fc
             /\ J({"C25"}, E.o.fpp >= s.fpp)
             /\ Obs(s', E.o)

Rem == /\ Is("rem")
       /\ s' = [s EXCEPT !.stages = [i \in DOMAIN @ |-> [@[i] EXCEPT !.stored = @ \ {s.stages[i].cls[E.x]}]], !.fpp = E.o.fpp,
                         !.pl = {PlaceRemove(a, s.stages[Len(s.stages)].cls[E.x]) : a \in @}]
       /\ Obs(s', E.o)

Clr == /\ Is("clr")
       /\ s' = [s EXCEPT !.stages = <<Stage(Trace[s.t0].tab[1])>>, !.fpp = E.o.fpp, !.pl = Fresh]
       /\ Obs(s', E.o)

Next == Run \/ New \/ Ins \/ Rem \/ Clr
Spec == Init /\ [][Next]_vars
===========================================================================
