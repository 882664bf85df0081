------------------------------ MODULE MCRuns ------------------------------
(* Vectors written down by their runs, refined against the plain sequences  *)
(* of bits: every operation gives the same vector either way, and a vector  *)
(* is written in one way only.                                              *)
EXTENDS Bits, TLC
CONSTANT N
VARIABLES v, w, r, q
vars == <<v, w, r, q>>
R == INSTANCE Runs

AsSeq(u) == [i \in 1..u.n |-> IF i - 1 \in u.s THEN 1 ELSE 0]
Init == v = Vec(0, {}) /\ w = Vec(0, {}) /\ r = R!Same(0, 0) /\ q = R!Same(0, 0)
Other == UNCHANGED <<w, q>>
Do(u, t) == v' = u /\ r' = t /\ Other
Next == \/ \E i \in 0..(v.n - 1), b \in 0..1 : Do(Put(v, i, b), R!Assign(r, i, b))
        \/ \E i \in 0..(v.n - 1) : Do(Flip(v, i), R!Assign(r, i, 1 - R!ValueAt(r, i)))
        \/ \E b \in 0..1 : v.n < N /\ Do(Push(v, b), R!Extend(r, b))
        \/ \E b \in 0..1, k \in 1..2 : v.n + k + 1 <= N /\ Do(Push(IF k = 1 THEN Push(v, b) ELSE Push(Push(v, b), b), 1 - b),
                                                              R!ExtendAll(r, <<<<k, b>>, <<1, 1 - b>>>>))
        \/ v.n > 0 /\ Do(Pop(v), R!Shorten(r, v.n - 1))
        \/ \E m \in 0..N : Do(Trunc(v, m), R!Shorten(r, m))
        \/ \E b \in 0..1 : Do(SetAll(v, b), R!Pointwise(r, LAMBDA x : b))
        \/ Do(FlipAll(v), R!Pointwise(r, LAMBDA x : 1 - x))
        \/ \E op \in {"union", "inter", "diff", "sym"} :
               v.n = w.n /\ Do(Vec(v.n, Combine(op, v.s, w.s)), R!Zip(r, q, LAMBDA x, y : R!Bit2(op, x, y)))
        \/ w' = v /\ q' = r /\ UNCHANGED <<v, r>>
Spec == Init /\ [][Next]_vars

Agrees(u, t) == t = R!FromSeq(AsSeq(u))
Refines == Agrees(v, r) /\ Agrees(w, q)
Reads == \A i \in 0..(v.n - 1) : R!ValueAt(r, i) = (IF i \in v.s THEN 1 ELSE 0)
Counts == R!NonZero(r, 0) = Cardinality(v.s)
Bytes == LET b == ToBytes(v) IN R!FromPairs(R!BitsOfAll([i \in DOMAIN b |-> <<1, b[i]>>])) = R!Padded(r)
===========================================================================
