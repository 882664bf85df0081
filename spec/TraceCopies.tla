---------------------------- MODULE TraceCopies ---------------------------
(* Recorded histories of several instances of one collection: `o` holds     *)
(* what every instance answers after the line, so that operations on one    *)
(* instance are seen not to reach another.  at[i] is the history of         *)
(* instance i.                                                              *)
EXTENDS Tr, Copies, SipHash

VARIABLES tree, at, random
vars == <<l, tree, at, random>>
Init == l = 1 /\ tree = Root("") /\ at = <<>> /\ random = FALSE
Run == Is("run") /\ tree' = Root("") /\ at' = <<>> /\ random' = E.random

Answers == /\ Len(E.o) = Len(at')
           /\ \A i \in DOMAIN at' : E.o[i] = tree'.obs[at'[i]]
New == Is("new") /\ at = <<>> /\ tree' = Root(E.o[1]) /\ at' = <<1>> /\ UNCHANGED random /\ Answers
Move(i, op) == /\ tree' = Visit(tree, at[i], op, E.o[i])
               /\ at' = [at EXCEPT ![i] = Child(tree, at[i], op)]
               /\ UNCHANGED random
               /\ Answers
Op == Is("op") /\ Move(E.id, <<E.op, 0>>)
Merge == Is("merge") /\ Move(E.id, <<"merge", at[E.b]>>)
\* a clone shares the history; so does a round trip, unless the collection makes random choices: then it
\* answers like the original but chooses on its own from there
Copy == /\ Is("copy")
        /\ IF E.how = "serde" /\ random
           THEN /\ tree' = Visit(tree, at[E.from], <<"serde", 0>>, tree.obs[at[E.from]])
                /\ at' = Append(at, Child(tree, at[E.from], <<"serde", 0>>))
           ELSE tree' = tree /\ at' = Append(at, at[E.from])
        /\ UNCHANGED random
        /\ Answers
Over == Is("over") /\ tree' = tree /\ at' = [at EXCEPT ![E.id] = at[E.from]] /\ UNCHANGED random /\ Answers
\* built from the hash builders another instance exposes, with its arguments
Twin == Is("twin") /\ tree' = tree /\ at' = Append(at, 1) /\ UNCHANGED random /\ Answers
\* alike when built and used alike, and never when they answer differently
Eq == Is("eq") /\ (at[E.id] = at[E.b] => E.r) /\ (tree.obs[at[E.id]] # tree.obs[at[E.b]] => ~E.r) /\ UNCHANGED <<tree, at, random>>

Same == UNCHANGED <<tree, at, random>>
Builders == Is("beq") /\ E.r = (E.a = E.b) /\ Same
Sip == /\ Is("sip")
       /\ E.r = Hash(E.k0, E.k1, E.msg) /\ E.again = E.r
       /\ E.none = Hash(E.k0, E.k1, <<>>)
       /\ Same
Entropy == Is("entropy") /\ E.drawn >= 100 /\ E.twins = <<>> /\ Same

Next == Run \/ New \/ Op \/ Merge \/ Copy \/ Over \/ Twin \/ Eq \/ Builders \/ Sip \/ Entropy
Spec == Init /\ [][Next]_vars
===========================================================================
