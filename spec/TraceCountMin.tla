--------------------------- MODULE TraceCountMin --------------------------
(* Recorded histories of a CountMinSketch under its three strategies, which  *)
(* are given the same operations.  Amounts are small integers ("int"), small *)
(* multiples of a large unit ("scaled"), or arbitrary 64-bit words ("wide"). *)
EXTENDS Tr, CountMin

VARIABLE f
vars == <<l, f>>
None == [mode |-> "none"]
Init == l = 1 /\ f = None
Run == Is("run") /\ f' = None

Keys(g) == DOMAIN g.net
Shown(g, o) ==
    /\ J({"C12"}, o.rows = g.rows /\ o.cols = g.cols)
    /\ CASE g.mode = "int" ->
              /\ J({"C12"}, \A x \in Keys(g) : o.min[x] = MinCount(g, x))
              /\ J({"C13"}, \A x \in Keys(g) : o.mean[x] = MeanCount(g, x))
              /\ J({"C13"}, g.cols > 1 => \A x \in Keys(g) : o.bias[x] = BiasCount(g, x))
         [] g.mode = "scaled" ->
              /\ J({"C12"}, \A x \in Keys(g) : o.min[x] = ScaledMin(g, x))
              /\ J({"C13"}, \A x \in Keys(g) : o.mean[x] = ScaledMean(g, x))
              /\ J({"C13"}, \A x \in Keys(g) : o.bias[x] = ScaledBias(g, x))
         [] g.mode = "wide" ->
              /\ J({"C12"}, \A x \in Keys(g) : o.min[x] = WMin(g, x))
              /\ J({"C13"}, \A x \in Keys(g) : o.mean[x] = WMean(g, x))
              /\ J({"C13"}, g.cols > 1 => \A x \in Keys(g) : o.bias[x] = WBias(g, x))

Nothing(mode, n) == [x \in 1..n |-> IF mode = "wide" THEN Zero ELSE 0]
New == /\ Is("new")
       /\ f' = [mode |-> E.mode, rows |-> E.o.rows, cols |-> E.o.cols,
                col |-> [x \in DOMAIN E.keys |-> Columns(E.o.rows, E.o.cols, E.keys[x])],
                net |-> Nothing(E.mode, Len(E.keys))]
       /\ Shown(f', E.o)
Plus(v) == IF f.mode = "wide" THEN Add(f.net[E.x], v) ELSE f.net[E.x] + v
Minus(v) == IF f.mode = "wide" THEN Add(f.net[E.x], Neg(v)) ELSE f.net[E.x] - v
Ins == Is("ins") /\ f' = [f EXCEPT !.net[E.x] = Plus(E.v)] /\ Shown(f', E.o)
Rem == Is("rem") /\ f' = [f EXCEPT !.net[E.x] = Minus(E.v)] /\ Shown(f', E.o)
Clr == Is("clr") /\ f' = [f EXCEPT !.net = Nothing(f.mode, Len(f.net))] /\ Shown(f', E.o)

\* what a strategy is given for item E.t.x: the net total, the size, the item's counter in every row
CountersIn(g, x) == IF g.mode = "wide" THEN WCounters(g, x)
                    ELSE IF g.mode = "scaled" THEN [r \in 1..g.rows |-> Counters(g, x)[r] * g.rows * (g.cols - 1)]
                    ELSE Counters(g, x)
TotalIn(g) == IF g.mode = "wide" THEN WSum(g.net, DOMAIN g.net)
              ELSE IF g.mode = "scaled" THEN Total(g) * g.rows * (g.cols - 1) ELSE Total(g)
Row == /\ Is("row") /\ UNCHANGED f
       /\ J({"C12"}, /\ E.t.rows = f.rows /\ E.t.cols = f.cols
                     /\ E.t.total = TotalIn(f)
                     /\ E.t.v = CountersIn(f, E.t.x)
                     /\ E.t.last = E.t.v[f.rows])

Next == Row \/ Run \/ New \/ Ins \/ Rem \/ Clr
Spec == Init /\ [][Next]_vars
===========================================================================
