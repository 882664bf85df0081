----------------------------- MODULE TraceBits ----------------------------
(* Recorded histories of several BitVecs (through the verif_hooks           *)
(* re-export): o.it, o.gt, o.ix and o.into are the indexes of the ones as   *)
(* seen by iteration, get, indexing and consuming iteration.                *)
EXTENDS Tr, Bits, Walk

VARIABLE vs
vars == <<l, vs>>
Init == l = 1 /\ vs = <<>>
Run == Is("run") /\ vs' = <<>>

Shown(v, o) ==
    J({"C22"}, /\ o.len = v.n /\ o.empty = (v.n = 0)
               /\ Range(o.it) = v.s /\ Len(o.it) = Cardinality(v.s) /\ o.itlen = v.n
               /\ o.gt = o.it /\ o.ix = o.it /\ o.into = o.it
               /\ o.ones = Cardinality(v.s) /\ o.zeros = v.n - Cardinality(v.s)
               /\ o.bytes = ToBytes(v)
               /\ o.past                  \* get past the end is None, indexing there panics
               /\ o.fresh                 \* equal to a vector pushed together bit by bit
               /\ o.cap >= v.n)

\* a constructor appends a vector
New == /\ Is("new")
       /\ LET v == CASE E.how = "new" -> FromBit(E.n, 0)
                     [] E.how = "elem" -> FromBit(E.n, E.b)
                     [] E.how = "bytes" -> FromBytes(E.bytes)
                     [] E.how = "cap" -> FromBit(0, 0)
                     [] E.how = "clone" -> vs[E.from]
          IN vs' = Append(vs, v) /\ Shown(v, E.o) /\ J({"C22"}, E.how = "cap" => E.o.cap >= E.n)
Becomes(id, v) == vs' = [vs EXCEPT ![id] = v] /\ Shown(v, E.o)
At(i, then) == /\ J({"C22"}, E.ok = (i < vs[E.id].n))
               /\ Becomes(E.id, IF i < vs[E.id].n THEN then ELSE vs[E.id])
Put1 == Is("set") /\ At(E.i, Put(vs[E.id], E.i, E.b))
Flp == Is("flip") /\ At(E.i, Flip(vs[E.id], E.i))
Psh == Is("push") /\ Becomes(E.id, Push(vs[E.id], E.b))
Pp == /\ Is("pop")
      /\ LET v == vs[E.id]
         IN /\ J({"C22"}, E.r = (IF v.n = 0 THEN -1 ELSE IF v.n - 1 \in v.s THEN 1 ELSE 0))
            /\ Becomes(E.id, Pop(v))
Trn == Is("trunc") /\ Becomes(E.id, Trunc(vs[E.id], E.n))
Fil == Is("fill") /\ Becomes(E.id, SetAll(vs[E.id], E.b))
Fla == Is("flipall") /\ Becomes(E.id, FlipAll(vs[E.id]))
\* pairwise operations panic for different lengths
Cmb == /\ Is("comb")
       /\ LET a == vs[E.id] b == vs[E.b]
          IN /\ J({"C22"}, E.ok = (a.n = b.n))
             /\ Becomes(E.id, IF a.n = b.n THEN Vec(a.n, Combine(E.op, a.s, b.s)) ELSE a)
Rsv == Is("reserve") /\ J({"C22"}, E.o.cap >= vs[E.id].n + E.n) /\ Becomes(E.id, vs[E.id])
Cpy == Is("copy") /\ Becomes(E.id, vs[E.b])
Equ == Is("eq") /\ J({"C22"}, E.r = (vs[E.id] = vs[E.b])) /\ UNCHANGED vs
\* iterators used in other ways than from end to end
Wlk == /\ Is("walk") /\ UNCHANGED vs
       /\ LET v == vs[E.id] IN J({"C22"}, Walks([i \in 1..v.n |-> IF i - 1 \in v.s THEN 1 ELSE 0], E.steps))
Ask == Is("ask") /\ Becomes(E.id, vs[E.id])

Next == Run \/ New \/ Put1 \/ Flp \/ Psh \/ Pp \/ Trn \/ Fil \/ Fla \/ Cmb \/ Rsv \/ Cpy \/ Equ \/ Wlk \/ Ask
Spec == Init /\ [][Next]_vars
===========================================================================
