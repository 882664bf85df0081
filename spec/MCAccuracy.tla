---------------------------- MODULE MCAccuracy ----------------------------
(* Why the collections err as rarely as they are asked to: over ALL hash     *)
(* functions of a tiny universe (each as likely as any other), the share of *)
(* those under which a query errs is what the sizing rules count on.  A      *)
(* state is a law and its sizes <<a, b, c>>.                                 *)
EXTENDS Accuracy, TLC
VARIABLES law, a, b, c
vars == <<law, a, b, c>>
CONSTANTS Most

Pow(x, n) == x ^ n
\* a partitions of b bits, c items and a query
BloomLaw ==
    LET hits == {f \in [1..(c + 1) -> [1..a -> 0..(b - 1)]] :
                    \A i \in 1..a : \E j \in 1..c : f[j][i] = f[c + 1][i]}
    IN Cardinality(hits) = Pow(Pow(b, c + 1) - b * Pow(b - 1, c), a)
\* partitions filled unevenly report less than the mean fill suggests; half full ones at most 2^-a
RECURSIVE Prod(_, _)
Prod(o, i) == IF i = 0 THEN 1 ELSE o[i] * Prod(o, i - 1)
RECURSIVE Total(_, _)
Total(o, i) == IF i = 0 THEN 0 ELSE o[i] + Total(o, i - 1)
FillLaw == \A o \in [1..a -> 0..b] :
              /\ Prod(o, a) * Pow(a, a) <= Pow(Total(o, a), a)
              /\ (\A i \in 1..a : 2 * o[i] <= b) => Prod(o, a) * Pow(2, a) <= Pow(b, a)
\* a fingerprints, b stored items: a query meets one with chance at most b/a
QuotientLaw == Cardinality({f \in [0..b -> 1..a] : \E j \in 1..b : f[j] = f[0]}) <= b * Pow(a, b)
\* a buckets (a power of two) of b entries, c fingerprints whose hashes pair the buckets: whatever the table
\* holds, the share of the queries that meet their fingerprint in one of two buckets is at most 2b/c
Xor2(x, y) == IF a = 1 THEN 0 ELSE IF a = 2 THEN (x + y) % 2 ELSE (((x \div 2) + (y \div 2)) % 2) * 2 + ((x + y) % 2)
CuckooLaw ==
    \A h \in [1..c -> 0..(a - 1)] :
       \A t \in [0..(a - 1) -> {s \in SUBSET (1..c) : Cardinality(s) <= b}] :
          Cardinality({q \in (1..c) \X (0..(a - 1)) : q[1] \in t[q[2]] \/ q[1] \in t[Xor2(q[2], h[q[1]])]}) <= 2 * b * a
\* a columns, b items of weight 1 and a query: an excess of c or more has chance at most b/(a c) in one row,
\* and its square in two rows
CountMinLaw ==
    LET bad == {f \in [0..b -> 1..a] : Cardinality({j \in 1..b : f[j] = f[0]}) >= c}
    IN /\ Cardinality(bad) * a * c <= b * Pow(a, b + 1)
       /\ a * b <= 6 => Cardinality({f \in [0..b -> (1..a) \X (1..a)] :
                              /\ Cardinality({j \in 1..b : f[j][1] = f[0][1]}) >= c
                              /\ Cardinality({j \in 1..b : f[j][2] = f[0][2]}) >= c}) = Pow(Cardinality(bad), 2)
\* a common items, b only in the first set, c only in the second: under equally many orders as the Jaccard
\* similarity says, both sets have the same minimum
Least(f, S) == CHOOSE x \in {f[i] : i \in S} : \A i \in S : x <= f[i]
MinHashLaw ==
    LET n == a + b + c
        perms == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
        same == {f \in perms : Least(f, 1..(a + b)) = Least(f, (1..a) \cup ((a + b + 1)..n))}
    IN (a + b > 0 /\ a + c > 0) => Cardinality(same) * n = a * Cardinality(perms)
\* disjoint sets of odd sizes differ in half of the bits
Votes(f, S) == 2 * Cardinality({i \in S : f[i] = 0}) >= Cardinality(S)
SimHashLaw ==
    (a % 2 = 1 /\ b % 2 = 1) =>
       2 * Cardinality({f \in [1..(a + b) -> {0, 1}] : Votes(f, 1..a) # Votes(f, (a + 1)..(a + b))}) = Pow(2, a + b)
\* stages add up to at most p/(1-r), and combining them as independent gives at most their sum
RECURSIVE Misses(_, _, _)
Misses(p, r, n) == IF n = 0 THEN G ELSE MulDiv(G - p, Misses(MulDiv(p, r, G), r, n - 1), G)
StageLaw ==
    LET p == (G \div 8) \div a  r == b * (G \div 10)  s == StageSum(p, r, c)
    IN /\ MulDiv(s, G - r, G) <= p
       /\ G - Misses(p, r, c) <= s + c
       /\ StageSum(p, r, c + 1) >= s
\* the bounds accept what is expected, and more the closer to it
BoundLaw ==
    LET q == 1000 * a  x == b * (G \div 20)
    IN /\ NotTooMany(Expected(q, x), q, x) /\ NotTooFew(Expected(q, x), q, x)
       /\ NotTooMany(0, q, x) /\ NotTooFew(q, q, x)
       /\ \A w \in {c * 50, c * 200} : /\ NotTooMany(w + 50, q, x) => NotTooMany(w, q, x)
                                       /\ NotTooFew(w, q, x) => NotTooFew(w + 50, q, x)
                                       /\ NotTooMany(w, q, x) => NotTooMany(w, q, x + 1000)
       /\ a >= 4 /\ b <= 9 => ~NotTooMany(Expected(q, 2 * x) + q \div 25, q, x)
       /\ Root(a * a) = a /\ Root(a * a + a) = a
       /\ Times100(x, 100) = x /\ Times100(x, 200) = (IF 2 * x > G THEN G ELSE 2 * x)

Sizes == [bloom |-> {<<1, 4, 3>>, <<1, 2, 4>>, <<2, 2, 3>>, <<2, 3, 2>>, <<3, 2, 2>>, <<1, 5, 2>>, <<2, 4, 1>>},
          fill |-> {1, 2, 3} \X {1, 2, 4, 5} \X {1},
          quotient |-> ((2..5) \X (1..3) \X {1}) \cup {<<2, 6, 1>>, <<8, 3, 1>>},
          cuckoo |-> {<<1, 1, 3>>, <<2, 1, 3>>, <<2, 2, 3>>, <<2, 2, 4>>, <<4, 1, 3>>},
          countmin |-> (1..3) \X (1..5) \X (1..3),
          minhash |-> {s \in (0..3) \X (0..3) \X (0..3) : s[1] + s[2] + s[3] \in 1..Most},
          simhash |-> (1..5) \X (1..5) \X {1},
          stage |-> {1, 2, 7, 100} \X (1..9) \X {1, 2, 5, 20},
          bound |-> {1, 2, 4, 10, 33} \X (1..19) \X {0, 1, 3, 10, 40}]
Init == law \in DOMAIN Sizes /\ \E s \in Sizes[law] : a = s[1] /\ b = s[2] /\ c = s[3]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Laws == CASE law = "bloom" -> BloomLaw [] law = "fill" -> FillLaw [] law = "quotient" -> QuotientLaw
          [] law = "cuckoo" -> CuckooLaw [] law = "countmin" -> CountMinLaw [] law = "minhash" -> MinHashLaw
          [] law = "simhash" -> SimHashLaw [] law = "stage" -> StageLaw [] law = "bound" -> BoundLaw
===========================================================================
