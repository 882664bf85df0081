------------------------------ MODULE Similar -----------------------------
(* MinHash, SimHash, candidate pairs, shingles, Jaccard similarity.         *)
EXTENDS Integers, Sequences, FiniteSets, Word

\* ---- MinHash: items are pairs of base hashes
RECURSIVE LeastOf(_, _, _)
LeastOf(ws, a, b) == IF a = b THEN ws[a] ELSE LET m == (a + b) \div 2 IN Min(LeastOf(ws, a, m), LeastOf(ws, m + 1, b))
Entry(items, i) == LeastOf([j \in 1..Len(items) |-> Derived(items[j][1], items[j][2], i)], 1, Len(items))
Signature(k, items) == [i \in 1..k |-> Entry(items, i - 1)]
Matches(a, b) == Cardinality({i \in DOMAIN a : a[i] = b[i]})

\* ---- SimHash: items are hashes; bit j of the result (from 0) votes on hash bit 63 - j
RECURSIVE OnesAt(_, _, _)
OnesAt(hs, n, j) == IF n = 0 THEN 0 ELSE Bit(hs[n], j) + OnesAt(hs, n - 1, j)
\* ... and with the i-th hash occurring ns[i] times
RECURSIVE Sum(_, _)
Sum(ns, n) == IF n = 0 THEN 0 ELSE ns[n] + Sum(ns, n - 1)
RECURSIVE WeightAt(_, _, _, _)
WeightAt(hs, ns, n, j) == IF n = 0 THEN 0 ELSE Bit(hs[n], j) * ns[n] + WeightAt(hs, ns, n - 1, j)
WeighedVote(hs, ns, j) == IF 2 * WeightAt(hs, ns, Len(hs), j) <= Sum(ns, Len(ns)) THEN 1 ELSE 0

Vote(hs, j) == IF 2 * OnesAt(hs, Len(hs), j) <= Len(hs) THEN 1 ELSE 0
RECURSIVE Collect(_, _, _)
Collect(hs, j, n) == IF n = 0 THEN 0 ELSE Vote(hs, j) * TwoTo(n - 1) + Collect(hs, j + 1, n - 1)
SimHashOf(hs) == <<Collect(hs, 48, 16), Collect(hs, 32, 16), Collect(hs, 16, 16), Collect(hs, 0, 16)>>

\* the same for a bag of hashes given with their numbers of occurrences
RECURSIVE CollectBag(_, _, _, _)
CollectBag(hs, ns, j, n) == IF n = 0 THEN 0 ELSE WeighedVote(hs, ns, j) * TwoTo(n - 1) + CollectBag(hs, ns, j + 1, n - 1)
SimHashOfBag(hs, ns) == [i \in 1..4 |-> CollectBag(hs, ns, 64 - 16 * i, 16)]

\* ---- candidate pairs
RotBy1(w) == [j \in 1..4 |-> ((w[j] * 2) % 65536) + (w[IF j = 1 THEN 4 ELSE j - 1] \div 32768)]
RotLimbs(w, q) == [j \in 1..4 |-> w[((j - 1 + 4 - q) % 4) + 1]]
\* rotation left by r bits
RotL(w, r) == LET v == RotLimbs(w, r \div 16)
                  s == r % 16
              IN IF s = 0 THEN v
                 ELSE [j \in 1..4 |-> ((v[j] % TwoTo(16 - s)) * TwoTo(s)) + (v[IF j = 1 THEN 4 ELSE j - 1] \div TwoTo(16 - s))]
Before(hs, i, j) == Less(hs[i], hs[j]) \/ (hs[i] = hs[j] /\ i < j)
RankIn(hs, i) == Cardinality({j \in DOMAIN hs : Before(hs, j, i)})
PairsAt(hs, w) == LET rk == [i \in DOMAIN hs |-> RankIn(hs, i)]
                  IN {<<i, j>> \in (DOMAIN hs) \X (DOMAIN hs) : i < j /\ rk[i] - rk[j] < w /\ rk[j] - rk[i] < w}
Candidates(hs, w) == UNION {PairsAt([i \in DOMAIN hs |-> RotL(hs[i], r)], w) : r \in 0..63}

\* the same from the order of the inputs under each rotation, where orders[r + 1] is such an order
IsOrder(o, hs, r) == /\ Len(o) = Len(hs)
                     /\ {o[p] : p \in DOMAIN o} = DOMAIN hs
                     /\ \A p \in 1..(Len(o) - 1) : LET a == RotL(hs[o[p]], r) b == RotL(hs[o[p + 1]], r)
                                                   IN Less(a, b) \/ (a = b /\ o[p] < o[p + 1])
Pair(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
InWindow(o, w) == UNION {{Pair(o[p], o[p + d]) : p \in 1..(Len(o) - d)} : d \in 1..(w - 1)}
Ordered(orders, hs) == Len(orders) = 64 /\ \A r \in 0..63 : IsOrder(orders[r + 1], hs, r)
CandidatesIn(orders, w) == UNION {InWindow(orders[r], w) : r \in 1..64}

\* ---- shingles and Jaccard
Shingles(tokens, w) == [i \in 1..(IF Len(tokens) < w THEN 0 ELSE Len(tokens) - w + 1) |-> SubSeq(tokens, i, i + w - 1)]
===========================================================================
