-------------------------- MODULE TraceBitstrings -------------------------
(* Recorded histories of several BitstringVecs (through the verif_hooks     *)
(* re-export): sequences of words of w bits.                                *)
EXTENDS Tr, Word, Walk

VARIABLE vs
vars == <<l, vs>>
Init == l = 1 /\ vs = <<>>
Run == Is("run") /\ vs' = <<>>

Vec(w, s) == [w |-> w, s |-> s]
Same(n, x) == [i \in 1..n |-> x]
Shown(v, o) ==
    J({"C23"}, /\ o.len = Len(v.s) /\ o.w = v.w /\ o.empty = (Len(v.s) = 0)
               /\ o.it = v.s
               /\ o.gt = o.it /\ o.into = o.it
               /\ o.occ = Cardinality({i \in DOMAIN v.s : v.s[i] # Zero})
               /\ o.past                  \* get past the end panics
               /\ o.fresh                 \* equal to a vector pushed together
               /\ o.cap >= Len(v.s))
New == /\ Is("new")
       /\ LET v == CASE E.how = "new" -> Vec(E.w, Same(E.n, Zero))
                     [] E.how = "elem" -> Vec(E.w, Same(E.n, E.x))
                     [] E.how = "cap" -> Vec(E.w, <<>>)
                     [] E.how = "clone" -> vs[E.from]
          IN vs' = Append(vs, v) /\ Shown(v, E.o) /\ J({"C23"}, E.how = "cap" => E.o.cap >= E.n)
Becomes(id, s) == vs' = [vs EXCEPT ![id].s = s] /\ Shown(vs'[id], E.o)
Set == /\ Is("set")
       /\ J({"C23"}, E.ok = (E.i < Len(vs[E.id].s)))
       /\ Becomes(E.id, IF E.i < Len(vs[E.id].s) THEN [vs[E.id].s EXCEPT ![E.i + 1] = E.x] ELSE vs[E.id].s)
Psh == Is("push") /\ Becomes(E.id, Append(vs[E.id].s, E.x))
\* popping an empty vector panics
Pp == /\ Is("pop")
      /\ LET s == vs[E.id].s
         IN /\ J({"C23"}, E.ok = (s # <<>>) /\ (s # <<>> => E.r = s[Len(s)]))
            /\ Becomes(E.id, IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1))
Trn == Is("trunc") /\ Becomes(E.id, IF E.n < Len(vs[E.id].s) THEN SubSeq(vs[E.id].s, 1, E.n) ELSE vs[E.id].s)
Clr == Is("clear") /\ Becomes(E.id, Same(Len(vs[E.id].s), Zero))
Rsv == Is("reserve") /\ J({"C23"}, E.o.cap >= Len(vs[E.id].s) + E.n) /\ Becomes(E.id, vs[E.id].s)
Cpy == Is("copy") /\ vs' = [vs EXCEPT ![E.id] = vs[E.b]] /\ Shown(vs'[E.id], E.o)
Equ == Is("eq") /\ J({"C23"}, E.r = (vs[E.id] = vs[E.b])) /\ UNCHANGED vs
\* iterators used in other ways than from end to end
Wlk == Is("walk") /\ UNCHANGED vs /\ J({"C23"}, Walks(vs[E.id].s, E.steps))
Ask == Is("ask") /\ Becomes(E.id, vs[E.id].s)

Next == Run \/ New \/ Set \/ Psh \/ Pp \/ Trn \/ Clr \/ Rsv \/ Cpy \/ Equ \/ Wlk \/ Ask
Spec == Init /\ [][Next]_vars
===========================================================================
