------------------------------ MODULE MCSimilar ---------------------------
(* Signatures, votes and shingles computed step by step, as the code does.  *)
(* Words are represented by small ones: W values of one limb.               *)
EXTENDS Similar, TLC
CONSTANTS N, W, K, Tokens
\* every item hash used: small words and their complements near the wrap-around
Words == {<<n, 0, 0, 0>> : n \in 0..(W - 1)} \cup {<<65535 - n, 65535, 65535, 65535>> : n \in 0..(W - 1)}

VARIABLES phase, bag, sig, votes, toks, w, at, out
vars == <<phase, bag, sig, votes, toks, w, at, out>>

Init == /\ phase \in {"items", "shingles"}
        /\ bag = <<>>
        /\ sig = <<>>
        /\ votes = [j \in 0..63 |-> 0]
        /\ at = 0 /\ out = <<>>
        /\ IF phase = "shingles" THEN toks \in UNION {[1..n -> 1..2] : n \in 0..Tokens} /\ w \in 1..(Tokens + 1)
                                 ELSE toks = <<>> /\ w = 0
\* one more item: the signature takes the minimum, the counters move by one
Add1(a, b) == /\ phase = "items" /\ Len(bag) < N
              /\ bag' = Append(bag, <<a, b>>)
              /\ sig' = [i \in 1..K |-> LET d == Derived(a, b, i - 1) IN IF bag = <<>> THEN d ELSE Min(sig[i], d)]
              /\ votes' = [j \in 0..63 |-> votes[j] + (IF Bit(a, j) = 0 THEN 1 ELSE -1)]
              /\ UNCHANGED <<phase, toks, w, at, out>>
\* the shingle iterator
NextShingle == /\ phase = "shingles" /\ at < Tokens + 2
               /\ at' = at + 1
               /\ out' = IF at + w > Len(toks) THEN out ELSE Append(out, SubSeq(toks, at + 1, at + w))
               /\ UNCHANGED <<phase, bag, sig, votes, toks, w>>
Next == NextShingle \/ \E a, b \in Words : Add1(a, b)
Spec == Init /\ [][Next]_vars

Hashes == [i \in DOMAIN bag |-> bag[i][1]]
SigIsMinimum == phase = "items" /\ bag # <<>> => sig = Signature(K, bag)
VotesDecide == phase = "items" =>
    \A j \in 0..63 : (Vote(Hashes, j) = 1) <=> (votes[j] >= 0)
Single == phase = "items" /\ Len(bag) = 1 =>
    \A j \in 0..63 : Bit(SimHashOf(Hashes), 63 - j) = 1 - Bit(Hashes[1], j)
ShingleOK == phase = "shingles" /\ at = Tokens + 2 => out = Shingles(toks, w)
\* ... the votes of a bag with repetitions
Repeated(ns) == [n \in 1..Sum(ns, Len(ns)) |-> Hashes[CHOOSE i \in DOMAIN ns : Sum(ns, i - 1) < n /\ n <= Sum(ns, i)]]
BagOK == phase = "items" /\ bag # <<>> => \A ns \in [DOMAIN bag -> 1..2] : SimHashOfBag(Hashes, ns) = SimHashOf(Repeated(ns))
OrderOf(hs) == CHOOSE o \in [DOMAIN hs -> DOMAIN hs] : \A p \in DOMAIN hs : RankIn(hs, o[p]) = p - 1
\* pairs: rotating the inputs changes nothing, equal hashes that fit a window are reported, all pairs for wide windows
PairsOK == phase = "items" /\ Len(bag) >= 2 => \A win \in 2..3 :
    LET c == Candidates(Hashes, win)
    IN /\ \A o \in {[r \in 1..64 |-> OrderOf([i \in DOMAIN bag |-> RotL(Hashes[i], r - 1)])]} :
            Ordered(o, Hashes) /\ c = CandidatesIn(o, win)
       /\ c = Candidates([i \in DOMAIN bag |-> RotBy1(Hashes[i])], win)
       /\ \A i, j \in DOMAIN bag : i < j /\ j - i < win /\ (\A k \in i..j : Hashes[k] = Hashes[i]) => <<i, j>> \in c
       /\ Len(bag) <= win => c = {<<i, j>> \in (DOMAIN bag) \X (DOMAIN bag) : i < j}
RotOK == \A r \in 0..62, x \in Words : RotL(x, r + 1) = RotBy1(RotL(x, r))
ASSUME RotOK
===========================================================================
