---------------------------- MODULE TraceSimilar --------------------------
(* Recorded calls of MinHash, SimHash, ShingleIterator and                  *)
(* get_jaccard_similarity.  A run keeps the signatures computed so far in   *)
(* known, so that signatures of sets and unions are related over time.      *)
EXTENDS Tr, Similar, Num, Walk

VARIABLE known
vars == <<l, known>>
Init == l = 1 /\ known = <<>>
Keep == UNCHANGED known
Run == Is("run") /\ known' = <<>>

\* a fraction num/den in 10^-9
Frac(r, num, den) == Near(r, MulDiv(G, num, den), 1)

\* signature number E.n of the items E.items (pairs of base hashes)
Sig == /\ Is("sig")
       /\ J({"C16"}, E.sig = Signature(E.k, E.items))
       /\ known' = Append(known, [k |-> E.k, sig |-> E.sig])
\* entries E.at (from 0) of the signature of the items E.items
Sq == /\ Is("seq") /\ Keep
      /\ J({"C03", "C16"}, /\ E.n = E.k
                           /\ \A j \in DOMAIN E.at : E.v[j] = Entry(E.items, E.at[j]))
\* a signature of length E.k against a copy with E.odd entries changed
Nr == /\ Is("near") /\ Keep
      /\ J({"C16"}, Frac(E.r, E.k - E.odd, E.k) /\ E.back = E.r /\ E.self = G)
\* similarity of two known signatures, both ways round, and from the items
Sim == /\ Is("sim") /\ Keep
       /\ LET a == known[E.a] b == known[E.b]
          IN J({"C16"}, IF a.k # b.k THEN ~E.ok
                        ELSE /\ E.ok
                             /\ Frac(E.r, Matches(a.sig, b.sig), a.k)
                             /\ E.back = E.r
                             /\ E.items = E.r
                             /\ (a.sig = b.sig) <=> (E.r = G))
\* similarity of arbitrary words
Raw == /\ Is("raw") /\ Keep
       /\ J({"C16"}, IF Len(E.a) # Len(E.b) THEN ~E.ok ELSE E.ok /\ Frac(E.r, Matches(E.a, E.b), E.k))
\* vote of a bag of hashes
Vot == /\ Is("vote") /\ Keep
       /\ J({"C17"}, E.r = SimHashOf(E.hs))
\* ... of a bag with E.ns[i] occurrences of E.hs[i]
Bag == /\ Is("bag") /\ Keep
       /\ J({"C17"}, E.r = SimHashOfBag(E.hs, E.ns))
\* candidate pairs (from 1) of inputs whose simhashes are E.hs
Prs == /\ Is("pairs") /\ Keep
       /\ J({"C18"}, /\ E.ok
                     /\ IF E.orders = <<>> THEN Range(E.r) = Candidates(E.hs, E.w)
                        ELSE Ordered(E.orders, E.hs) /\ Range(E.r) = CandidatesIn(E.orders, IF E.w > Len(E.hs) THEN Len(E.hs) ELSE E.w)
                     /\ Len(E.r) = Cardinality(Range(E.r)))
\* windows in order, and how many more come out after the first end
Shi == /\ Is("shi") /\ Keep
       /\ J({"C19"}, E.out = Shingles(E.tokens, E.w) /\ E.more = 0)
\* the iterator used in other ways than from end to end
Wlk == /\ Is("walk") /\ Keep
       /\ J({"C19"}, Walks(Shingles(E.tokens, E.w), E.steps))
\* Jaccard similarity of two sequences, both ways round
Jac == /\ Is("jac") /\ Keep
       /\ LET a == Range(E.a) b == Range(E.b)
          IN J({"C19"}, a \cup b # {} => Frac(E.r, Cardinality(a \cap b), Cardinality(a \cup b)) /\ E.back = E.r)

\* thousands of tokens, of which number i (from 0) is i * step modulo kinds: window number j is the tokens j, j + 1, ...
Token(i) == MulDivR(E.step % E.kinds, i, E.kinds)[2]
Shl == /\ Is("shl") /\ Keep
       /\ J({"C19"}, /\ E.count = (IF E.n < E.w THEN 0 ELSE E.n - E.w + 1)
                     /\ \A i \in DOMAIN E.seen :
                           LET s == E.seen[i]
                           IN s.len = E.w /\ \A p \in Range(s.at) : p[2] = Token(s.j + p[1]))
\* thousands of items: all from the first on, <<first, number>>
Jal == /\ Is("jal") /\ Keep
       /\ LET end(x) == x[1] + x[2]
              lo == IF E.a[1] < E.b[1] THEN E.b[1] ELSE E.a[1]
              hi == IF end(E.a) < end(E.b) THEN end(E.a) ELSE end(E.b)
              both == IF lo < hi THEN hi - lo ELSE 0
              all == E.a[2] + E.b[2] - both
          IN J({"C19"}, all > 0 => Frac(E.r, both, all) /\ E.back = E.r)

Next == Run \/ Shl \/ Jal \/ Sig \/ Sq \/ Nr \/ Sim \/ Raw \/ Vot \/ Bag \/ Prs \/ Shi \/ Wlk \/ Jac
Spec == Init /\ [][Next]_vars
===========================================================================
