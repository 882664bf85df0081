------------------------------ MODULE MCCopies ----------------------------
(* Instances as memory cells holding contents and a generator: operations   *)
(* work on one cell, clones copy the whole cell, round trips copy the       *)
(* contents and restart the generator, twins start over.  The tree of       *)
(* histories explains all the answers: every instance answers what its      *)
(* history says, and a cell changes only by an operation on its instance.   *)
EXTENDS Copies
CONSTANTS Ops, Cells, Steps, Random
VARIABLES cell, at, tree, n
vars == <<cell, at, tree, n>>
Fresh == [set |-> {}, gen |-> 1]
\* an operation evicts what the generator points at and inserts its item
Apply(c, op) == LET g == IF Random THEN (5 * c.gen + 3) % 8 ELSE c.gen
                IN IF op = 0 THEN [c EXCEPT !.set = {}]
                   ELSE [set |-> (c.set \ (IF Random THEN {g % 3} ELSE {})) \cup {op}, gen |-> g]
Ask(c) == c.set
Init == cell = <<Fresh>> /\ at = <<1>> /\ tree = Root(Ask(Fresh)) /\ n = 0
Step == n < Steps /\ n' = n + 1
Op(i, op) == /\ Step
             /\ cell' = [cell EXCEPT ![i] = Apply(@, op)]
             /\ tree' = Visit(tree, at[i], <<"op", op>>, Ask(cell'[i]))
             /\ at' = [at EXCEPT ![i] = Child(tree, at[i], <<"op", op>>)]
Clone(i) == /\ Step /\ Len(cell) < Cells
            /\ cell' = Append(cell, cell[i]) /\ at' = Append(at, at[i]) /\ UNCHANGED tree
Over(i, j) == /\ Step /\ i # j
              /\ cell' = [cell EXCEPT ![i] = cell[j]] /\ at' = [at EXCEPT ![i] = at[j]] /\ UNCHANGED tree
RoundTrip(i) == /\ Step /\ Len(cell) < Cells
                /\ cell' = Append(cell, [cell[i] EXCEPT !.gen = 1])
                /\ IF Random THEN /\ tree' = Visit(tree, at[i], <<"serde", 0>>, Ask(cell[i]))
                                  /\ at' = Append(at, Child(tree, at[i], <<"serde", 0>>))
                   ELSE UNCHANGED tree /\ at' = Append(at, at[i])
Twin == Step /\ Len(cell) < Cells /\ cell' = Append(cell, Fresh) /\ at' = Append(at, 1) /\ UNCHANGED tree
Next == Twin \/ \E i \in DOMAIN cell : Clone(i) \/ RoundTrip(i) \/ (\E op \in Ops : Op(i, op)) \/ \E j \in DOMAIN cell : Over(i, j)
Spec == Init /\ [][Next]_vars

Explained == \A i \in DOMAIN cell : Ask(cell[i]) = tree.obs[at[i]]
SameHistorySameFuture == \A i, j \in DOMAIN cell : at[i] = at[j] => cell[i] = cell[j]
Frame == [][\A i \in DOMAIN cell : at'[i] = at[i] => cell'[i] = cell[i]]_vars
===========================================================================
