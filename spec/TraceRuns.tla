----------------------------- MODULE TraceRuns ----------------------------
(* Recorded histories of several very long BitVecs or BitstringVecs.  What  *)
(* is read back is written as pairs <<length, value>>, each way of reading  *)
(* in its own list: o.reads.                                                *)
EXTENDS Tr, Runs

VARIABLES vs, kind
vars == <<l, vs, kind>>
Init == l = 1 /\ vs = <<>> /\ kind = "bits"
Run == Is("run") /\ vs' = <<>> /\ kind' = E.kind

Here == {"C22", "C23"}
Nil == IF kind = "bits" THEN 0 ELSE <<0, 0, 0, 0>>
Shown(v, o) ==
    /\ J(Here, o.len = v.n /\ o.ones = NonZero(v, Nil) /\ o.cap >= v.n)
    /\ J(Here, \A j \in DOMAIN o.reads : FromPairs(o.reads[j]) = v)
    /\ J(Here, kind = "bits" => o.zeros = v.n - o.ones /\ FromPairs(BitsOfAll(o.bytes)) = Padded(v))
    /\ J(Here, o.past)

New == /\ Is("rnew") /\ UNCHANGED kind
       /\ LET v == CASE E.how = "elem" -> Same(E.n, E.x)
                     [] E.how = "bytes" -> FromPairs(BitsOfAll(E.bytes))
                     [] E.how = "clone" -> vs[E.from]
          IN vs' = Append(vs, v) /\ Shown(v, E.o)
Becomes(v) == vs' = [vs EXCEPT ![E.id] = v] /\ Shown(v, E.o) /\ UNCHANGED kind
Assg == Is("rset") /\ Becomes(Assign(vs[E.id], E.i, E.x))
Flip == Is("rflip") /\ Becomes(Assign(vs[E.id], E.i, 1 - ValueAt(vs[E.id], E.i)))
Psh == Is("rpush") /\ Becomes(ExtendAll(vs[E.id], E.p))
\* the values popped, last one first, turned around
Pop == /\ Is("rpop")
       /\ LET v == Shorten(vs[E.id], vs[E.id].n - E.k)
          IN /\ J(Here, ExtendAll(v, E.p) = vs[E.id])
             /\ Becomes(v)
Cut == Is("rcut") /\ Becomes(Shorten(vs[E.id], E.n))
Fil == Is("rfill") /\ Becomes(Pointwise(vs[E.id], LAMBDA x : E.x))
Fla == Is("rflipall") /\ Becomes(Pointwise(vs[E.id], LAMBDA x : 1 - x))
Cmb == Is("rcomb") /\ Becomes(Zip(vs[E.id], vs[E.b], LAMBDA x, y : Bit2(E.op, x, y)))
Cpy == Is("rcopy") /\ Becomes(vs[E.b])
Rsv == Is("rreserve") /\ J(Here, E.o.cap >= vs[E.id].n + E.n) /\ Becomes(vs[E.id])
Equ == Is("req") /\ J(Here, E.r = (vs[E.id] = vs[E.b])) /\ UNCHANGED <<vs, kind>>

Next == Run \/ New \/ Assg \/ Flip \/ Psh \/ Pop \/ Cut \/ Fil \/ Fla \/ Cmb \/ Cpy \/ Rsv \/ Equ
Spec == Init /\ [][Next]_vars
===========================================================================
