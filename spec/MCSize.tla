------------------------------ MODULE MCSize ------------------------------
(* The arithmetic of Size and what the sizing rules of the constructors      *)
(* guarantee, over every combination of a grid of arguments.                 *)
EXTENDS Size, FiniteSets, TLC
CONSTANTS Ns, Ms, Ks, Es
VARIABLES n, m, k, e
vars == <<n, m, k, e>>
Init == n \in Ns /\ m \in Ms /\ k \in Ks /\ e \in Es /\ ~(m = G /\ k = 0)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

NearP(a, b, tol) == LeP(a, Norm(b[1], b[2] + tol)) /\ LeP(b, Norm(a[1], a[2] + tol))
\* logarithms are additive and halving a probability adds one
Logs == /\ NearP(IntLog2(n * e), Add2(IntLog2(n), IntLog2(e)), 100)
        /\ NearP(L2(m, k + 1), Add2(<<1, 0>>, L2(m, k)), 100)
        /\ k >= 2 => NearP(L2(m, 2 * k), Sub2(Times(L2(m, k), 2), L2(m, 0)), 100)
        /\ NearP(Scale(Scale(<<n, 0>>, Ln2), InvLn2), <<n, 0>>, 10 + 2 * n)
        /\ NearP(Times(Over(<<n, 0>>, e), e), <<n, 0>>, 2 * e)
        \* p <= -ln(1-p) <= 2p up to 1/2 and the two ways of computing it agree
        /\ k >= 1 => LeP(Rate(m, k), Add2(L2(m, k), <<2, 100>>)) /\ LeP(Add2(L2(m, k), <<1, 0>>), Add2(Rate(m, k), <<0, 100>>))
        /\ k = 3 => NearP(RateSmall(m, 3), RateLarge(m, 3), 400)

Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
\* a bloom filter sized for n and p holds n items again when asked by its bits and p
BitsOf(v) == IF v[2] = 0 THEN v[1] ELSE v[1] + 1
Bloom == LET bits == BitsOf(Ideal(n, m, k))
         IN /\ BloomBits(n, m, k, bits)
            /\ ~BloomBits(n, m, k, bits + 2)
            /\ bits > 2 => ~BloomBits(n, m, k, bits - 2)
            /\ BloomItems(bits, m, k) # {}
            /\ k >= 1 => \A x \in BloomItems(bits, m, k) : x >= n - 1 /\ x <= n + bits + 1
            /\ BloomItems(n, m, k) # {}
\* the code's remainder width for a quotient filter, ceil(log2(-1/(1.33 ln(1-p)))), keeps it below p
Quotient == LET q == CHOOSE q \in 0..30 : Quotients(n, q)
                w == Rate(m, k)
                R == {r \in 1..64 : LeP(Sub2(w, <<0, 411426246>>), <<r + 2, 0>>)}
            IN /\ Cardinality({q2 \in 0..22 : Quotients(n, q2)}) \in {1, 2}
               /\ R # {} => Below(n, q, Smallest(R), m, k, 100)
               /\ \E r \in 1..70 : Below(n, q, r, m, k, 0)
\* the code's fingerprint width, ceil(log2(2/(1-(1-p)^(1/2e)))), is wide enough: 1-(1-p)^(1/2e) <= -ln(1-p)/2e
Cuckoo == LET need == NeedLog2(e, m, k)
              F == {fb \in 2..64 : LeP(Add2(need, <<1, 0>>), <<fb + 2, 0>>)}
              W == {fb \in 2..64 : Covers(fb, need, 0)}
          IN /\ F # {} => Covers(Smallest(F), need, 100)
             /\ W # {} => W = Smallest(W)..64
             /\ \A fb \in {2, 9, 30} : Possible(fb, m, k) => ~Impossible(fb, m, k)
             /\ Buckets(n, e) * e >= n /\ (Buckets(n, e) > 1 => Buckets(n, e) * e < 2 * (n + e))
\* more certainty takes more
Grows == /\ \A r \in {k \div 2, k, k + 1} : Rows(m, k + 1, r) => Rows(m, k, r)
         /\ \A p \in {k, 2 * k, 2 * k + 1} : Registers(p, m, k) => Registers(p + 1, m, k)
         /\ \A p \in {2 * k + 2, 2 * k + 3} : Registers(p, m, k + 1) => Registers(p, m, k)
         /\ Registers(2 * k + 3, m, k) /\ ~Registers(2 * k - 1, m, k)
         /\ k <= 20 => \A c \in {n, n + e} : Cols(m, k + 1, c) => Cols(m, k, c)
         /\ LET x == (2 + (3 * k) \div 2) \div 2 IN \E y \in x..(x + 3) : StreamProbes(m, k, y) /\ ~StreamProbes(m, k, y + 2)
         /\ PartProbes(m, k, k) \/ PartProbes(m, k, k + 1)
         /\ ~PartProbes(m, k, k + 3)
===========================================================================
