---------------------------- MODULE TraceStream ---------------------------
(* Recorded histories of BSBloomFilter, BSSDBloomFilter, RLBSBloomFilter.   *)
(* With a product universe (every combination of some offsets is a key)     *)
(* the answers determine the contents of every partition, so each insertion *)
(* is checked against the scheme and the evictions are counted: stat[i][o]  *)
(* is <<losses minus expected losses, expected losses>> for offset o; cum adds  *)
(* them up over the runs of a kind.  Runs with long partitions log what an  *)
(* insertion changed in two of them, and losses are counted by class.       *)
EXTENDS Tr, Stream, Num

VARIABLES f, last, stat, joint, cum
vars == <<l, f, last, stat, joint, cum>>

NoFilter == [k |-> 0]
Init == /\ l = 1 /\ f = NoFilter /\ last = <<>> /\ stat = <<>> /\ joint = <<0, 0>>
        /\ cum = [k \in {"bs", "bssd", "rlbs"} |-> [c \in 1..34 |-> <<0, 0>>]]
Run == Is("run") /\ f' = NoFilter /\ last' = <<>> /\ stat' = <<>> /\ joint' = <<0, 0>>

Counts(g, o) == J({"C11"}, o.len = g.k * g.w /\ o.ones + o.zeros = o.len /\ o.k = g.k /\ o.w = g.w /\ o.empty = (o.len = 0))

\* contents as the answers show them
Seen(g, o) == [i \in 1..g.k |-> {g.pos[x][i] : x \in Range(o.rep)}]
Shown(g, o) == /\ J({"C11"}, g.product => SReported(g) = Range(o.rep))
               /\ J({"C11"}, g.product => SOnes(g) = o.ones)
               /\ Counts(g, o)

New == /\ Is("new")
       /\ f' = [kind |-> E.kind, w |-> E.o.w, k |-> E.o.k, product |-> E.product,
                pos |-> [x \in DOMAIN E.keys |-> Offsets(E.o.k, E.o.w, E.keys[x])], bits |-> NoBits(E.o.k)]
       /\ last' = E.o
       /\ stat' = IF E.product THEN [i \in 1..E.o.k |-> [o \in 0..(E.o.w - 1) |-> <<0, 0>>]] ELSE <<>>
       /\ joint' = <<0, 0>>
       /\ J({"C10"}, E.o.rep = <<>>)
       /\ J({"C11"}, E.o.ones = 0)
       /\ Counts(f', E.o)

\* statistics, in units of 10^-5 losses
Stat(nb, x) ==
    [i \in 1..f.k |->
       LET ch == Chance(f, i)
           p == (ch[1] * 100000) \div ch[2]
           own == f.pos[x][i]
       IN [o \in 0..(f.w - 1) |->
             IF o \notin f.bits[i] \/ o = own THEN stat[i][o]
             ELSE <<stat[i][o][1] + (IF o \in nb[i] THEN 0 ELSE 100000) - p, stat[i][o][2] + p>>]]

\* product of the deviations of the losses of two partitions
Dev(nb, x, i) == LET ch == Chance(f, i)
                     a == Cardinality(f.bits[i] \ {f.pos[x][i]}) * ch[1]
                 IN <<(IF Lost(f, nb, i) = {} THEN 0 ELSE ch[2]) - a, a * (ch[2] - a)>>
RECURSIVE Pairs(_, _, _, _)
Pairs(nb, x, i, acc) ==
    IF i >= f.k THEN acc
    ELSE LET d == Dev(nb, x, i) e == Dev(nb, x, i + 1)
         IN Pairs(nb, x, i + 1, <<acc[1] + d[1] * e[1], acc[2] + d[2] * e[2]>>)

Ins == /\ Is("ins")
       /\ \E nb \in {IF f.product /\ Prop # "C10" THEN TLCEval(Seen(f, E.o)) ELSE <<>>}, known \in {E.x \in Range(last.rep)} :
          LET o == E.o
          IN /\ J({"C10"}, E.x \in Range(o.rep))
             /\ J({"C10"}, known => o.rep = last.rep /\ o.ones = last.ones /\ o.zeros = last.zeros)
             /\ J({"C11"}, known => o.ones = last.ones)
             /\ J({"C11"}, ~known => /\ o.ones <= last.ones + f.k
                                     /\ o.ones >= last.ones - f.k + 1
                                     /\ (f.kind = "bssd" => o.ones >= last.ones)
                                     /\ o.ones >= f.k)
             /\ IF f.product /\ Prop # "C10"
                THEN /\ MayBecome(f, E.x, nb)
                     /\ f' = [f EXCEPT !.bits = nb]
                     /\ Shown(f', o)
                     /\ IF known THEN UNCHANGED <<stat, joint>>
                        ELSE /\ stat' = TLCEval(Stat(nb, E.x))
                             /\ joint' = IF f.kind = "bssd" \/ f.w > 5 THEN joint ELSE Pairs(nb, E.x, 1, joint)
                ELSE Counts(f, o) /\ UNCHANGED <<f, stat, joint>>
             /\ last' = o

Clr == /\ Is("clr")
       /\ f' = [f EXCEPT !.bits = NoBits(f.k)]
       /\ J({"C10"}, E.o.rep = <<>>)
       /\ J({"C11"}, E.o.ones = 0)
       /\ Counts(f', E.o)
       /\ last' = E.o
       /\ UNCHANGED <<stat, joint>>

\* End of a run: the losses at every offset, and over each half of a partition, deviate from the
\* scheme's chance by less than Bernstein's bound at e^-20; so do, over all runs of a kind, the losses
\* at the first offset, the last, those from 64 on, the others, in the first and in the last partition.
\* Partitions lose independently.
Bernstein(d, v) ==      \* units of 10^-3 losses
    LET t == Abs(d) T == t \div 100
        slack == IF d < 0 THEN 0 ELSE t \div 3       \* the lower tail is the thinner one
    IN T < 46000 /\ (T * T) \div 40 <= (v + slack) \div 10 + 1
Jointly == LET t == Abs(joint[1]) IN t < 300000 /\ (t \div 7) * (t \div 7) <= joint[2] + 35 * t + 1
RECURSIVE Sum(_, _, _)
Sum(row, o, hi) == IF o >= hi THEN <<0, 0>>
                   ELSE LET r == Sum(row, o + 1, hi) IN <<row[o][1] \div 100 + r[1], row[o][2] \div 100 + r[2]>>
Fair(s) == Bernstein(s[1], s[2])
EvenRow(i) ==
    /\ \A o \in 0..(f.w - 1) : Fair(Sum(stat[i], o, o + 1))
    /\ Fair(Sum(stat[i], 0, f.w \div 2))
    /\ Fair(Sum(stat[i], f.w \div 2, f.w))
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Rows(_, _, _)
Rows(i, lo, hi) == IF i = 0 THEN <<0, 0>> ELSE Plus(Sum(stat[i], lo, hi), Rows(i - 1, lo, hi))
Totals == LET c == cum[f.kind]
              m == IF f.w <= 64 THEN f.w - 1 ELSE 64
          IN <<Plus(c[1], Rows(f.k, 0, 1)),
               Plus(c[2], Rows(f.k, f.w - 1, f.w)),
               Plus(c[3], Rows(f.k, m, f.w - 1)),
               Plus(c[4], Rows(f.k, 1, m)),
               Plus(c[5], Sum(stat[1], 0, f.w)),
               Plus(c[6], Sum(stat[f.k], 0, f.w))>>
End == /\ Is("end")
       /\ IF f.product /\ Prop # "C10"
          THEN /\ \A i \in 1..f.k : EvenRow(i)
               /\ Jointly
               /\ cum' = [cum EXCEPT ![f.kind] = Totals \o SubSeq(@, 7, 34)]
               /\ \A c \in 1..6 : Fair(cum'[f.kind][c])
          ELSE cum' = cum
       /\ UNCHANGED <<f, last, stat, joint>>

\* ---- long partitions, k = 2; stat[i][c] counts the ones of class c of partition i, losses less expected
\* losses and expected losses there, in 10^-6; the classes are the eighths and the remainders modulo 8
InClass(o, c) == IF c <= 8 THEN (o * 8) \div f.w = c - 1 ELSE o % 8 = c - 9
PNew == /\ Is("pnew")
        /\ J({"C11"}, E.k = 2)
        /\ f' = [kind |-> E.kind, w |-> E.w, k |-> 2, product |-> FALSE, pos |-> <<<<0, 0>>>>, bits |-> NoBits(2)]
        /\ stat' = [i \in 1..2 |-> [c \in 1..16 |-> <<0, 0, 0>>]]
        /\ UNCHANGED <<last, joint>>
PStat(g, i) ==
    LET ch == Chance(g, i)
        p == MulDiv(ch[1], 1000000, ch[2])
        own == g.pos[1][i]
        lost == Range(E.lost[i])
        got == Range(E.got[i])
    IN [c \in 1..16 |->
          LET s == stat[i][c]
              n == s[1] - (IF own \in g.bits[i] /\ InClass(own, c) THEN 1 ELSE 0)
              out == Cardinality({o \in lost : InClass(o, c)})
          IN <<s[1] - out + Cardinality({o \in got : InClass(o, c)}), s[2] + out * 1000000 - n * p, s[3] + n * p>>]
PIns == /\ Is("pins")
        /\ LET g == [f EXCEPT !.pos = <<E.x>>]
               nb == [i \in 1..2 |-> (g.bits[i] \ Range(E.lost[i])) \cup Range(E.got[i])]
           IN /\ MayBecome(g, 1, nb)
              /\ \A i \in 1..2 : Range(E.lost[i]) \subseteq g.bits[i] /\ Range(E.got[i]) \cap g.bits[i] = {}
              /\ f' = [g EXCEPT !.bits = nb]
              /\ J({"C11"}, E.ones = SOnes(f'))
              /\ stat' = IF SReports(g, 1) THEN stat ELSE [i \in 1..2 |-> PStat(g, i)]
        /\ UNCHANGED <<last, joint>>
PSum(i, c) == <<stat[i][c][2] \div 1000, stat[i][c][3] \div 1000>>
PEnd == /\ Is("pend")
        /\ \A i \in 1..2 : \A c \in 1..16 : Fair(PSum(i, c))
        /\ cum' = [cum EXCEPT ![f.kind] = [c \in 1..34 |-> IF c <= 6 \/ c > 22 THEN @[c] ELSE Plus(@[c], Plus(PSum(1, c - 6), PSum(2, c - 6)))]]
        /\ \A c \in 7..22 : Fair(cum'[f.kind][c])
        /\ UNCHANGED <<f, last, stat, joint>>

\* ---- any number of partitions, their contents read from the serialized form and verified here: a change
\* of contents must be one that the scheme allows, and reports must follow from the contents.
\* stat is a record, losses less expected losses and their variance, in 10^-4 losses: part by partition,
\* load by the fill of the partition (eighths; 9: full), cls by the classes above in partition watch
WNew == /\ Is("wnew")
        /\ f' = [kind |-> E.kind, w |-> E.w, k |-> E.k, product |-> FALSE, pos |-> <<>>, bits |-> NoBits(E.k)]
        /\ J({"C11"}, E.ones = 0)
        /\ last' = [watch |-> E.watch]
        /\ stat' = [part |-> [i \in 1..E.k |-> <<0, 0>>], load |-> [c \in 1..9 |-> <<0, 0>>], cls |-> [c \in 1..16 |-> <<0, 0>>]]
        /\ joint' = <<0, 0>>
\* expected losses among n ones of partition i, with the variance
Expect(g, i, n) == LET ch == Chance(g, i) q == MulDiv(n * ch[1], 10000, ch[2])
                   IN <<q, (q * (10000 - q)) \div 10000>>
Others(g, i) == Cardinality(g.bits[i] \ {g.pos[1][i]})
Losses(g, nb, i) == LET e == Expect(g, i, Others(g, i))
                    IN <<10000 * Cardinality(Lost(g, nb, i)) - e[1], e[2]>>
LoadClass(g, i) == IF Cardinality(g.bits[i]) = g.w THEN 9 ELSE 1 + (Cardinality(g.bits[i]) * 8) \div g.w
RECURSIVE AddUp(_, _, _)
AddUp(v, S, n) == IF n = 0 THEN <<0, 0>> ELSE IF n \in S THEN Plus(v[n], AddUp(v, S, n - 1)) ELSE AddUp(v, S, n - 1)
WStat(g, nb) ==
    \E v \in {TLCEval([i \in 1..g.k |-> Losses(g, nb, i)])},
       lc \in {TLCEval([i \in 1..g.k |-> LoadClass(g, i)])} :
    LET i0 == last.watch
        own == g.pos[1][i0]
    IN stat' = [part |-> TLCEval([i \in 1..g.k |-> Plus(stat.part[i], v[i])]),
                load |-> TLCEval([c \in 1..9 |-> Plus(stat.load[c], AddUp(v, {i \in 1..g.k : lc[i] = c}, g.k))]),
                cls |-> TLCEval([c \in 1..16 |->
                   LET e == Expect(g, i0, Cardinality({o \in g.bits[i0] \ {own} : InClass(o, c)}))
                   IN Plus(stat.cls[c], <<10000 * Cardinality({o \in Lost(g, nb, i0) : InClass(o, c)}) - e[1], e[2]>>)])]
WIns == /\ Is("wins")
        \* singletons, for TLC evaluates what a quantifier binds once, and a LET over and over
        /\ \E px \in {TLCEval(Offsets(f.k, f.w, E.x))}, py \in {IF E.y = <<>> THEN <<>> ELSE TLCEval(Offsets(f.k, f.w, E.y))} :
           \E g \in {[f EXCEPT !.pos = <<px, py>>]} :
           \E nb \in {TLCEval([i \in 1..f.k |-> IF E.lost[i] = <<>> /\ E.got[i] = <<>> THEN f.bits[i]
                                               ELSE (f.bits[i] \ Range(E.lost[i])) \cup Range(E.got[i])])} :
           \E h \in {[g EXCEPT !.bits = nb]} :
              /\ \A i \in 1..g.k : Range(E.lost[i]) \subseteq g.bits[i] /\ Range(E.got[i]) \cap g.bits[i] = {}
              /\ J({"C10", "C11"}, E.has)
              /\ J({"C10"}, E.known => nb = g.bits)
              /\ J({"C11"}, MayBecome(g, 1, nb))
              /\ J({"C11"}, E.known = SReports(g, 1) /\ IF E.y = <<>> THEN TRUE ELSE E.also = SReports(h, 2))
              /\ J({"C11"}, E.ones = SOnes(h) /\ E.ones + E.zeros = g.k * g.w)
              /\ f' = [h EXCEPT !.pos = <<>>]
              /\ IF E.known \/ Prop = "C10" THEN stat' = stat ELSE WStat(g, nb)
        /\ UNCHANGED <<last, joint>>
Milli(s) == <<s[1] \div 10, s[2] \div 10>>
WEnd == /\ Is("wend")
        /\ J({"C11"}, /\ \A i \in 1..f.k : Fair(Milli(stat.part[i]))
                      /\ \A c \in 1..9 : Fair(Milli(stat.load[c]))
                      /\ \A c \in 1..16 : Fair(Milli(stat.cls[c])))
        /\ cum' = [cum EXCEPT ![f.kind] =
                     [c \in 1..34 |-> IF c <= 22 THEN @[c]
                                      ELSE IF c <= 31 THEN Plus(@[c], Milli(stat.load[c - 22]))
                                      ELSE IF c = 32 THEN Plus(@[c], Milli(stat.part[1]))
                                      ELSE IF c = 33 THEN Plus(@[c], Milli(stat.part[f.k]))
                                      ELSE Plus(@[c], Milli(AddUp(stat.part, 1..f.k, f.k)))]]
        /\ J({"C11"}, \A c \in 23..34 : Fair(cum'[f.kind][c]))
        /\ UNCHANGED <<f, last, stat, joint>>

Next == ((WNew \/ WIns) /\ UNCHANGED cum) \/ WEnd \/ ((PNew \/ PIns) /\ UNCHANGED cum) \/ PEnd \/ ((Run \/ New \/ Ins \/ Clr) /\ UNCHANGED cum) \/ End
Spec == Init /\ [][Next]_vars
===========================================================================
