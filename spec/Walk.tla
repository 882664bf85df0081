-------------------------------- MODULE Walk ------------------------------
(* An iterator over the finite sequence s is a cursor p into it: the number *)
(* of things already taken.  Every way of using it is a step                *)
(* [op, k, r] with r the sequence of what came out.                         *)
EXTENDS Integers, Sequences

Lesser(a, b) == IF a < b THEN a ELSE b
Rest(s, p) == SubSeq(s, p + 1, Len(s))
\* the thing k places after the cursor, if there is one
Nth(s, p, k) == IF p + k < Len(s) THEN <<s[p + k + 1]>> ELSE <<>>
StepBy(s, p, k) == [i \in 1..((Len(s) - p + k - 1) \div k) |-> s[p + 1 + ((i - 1) * k)]]

\* the cursor after the step
Moves(s, p, e) ==
    CASE e.op \in {"next", "nth"} -> Lesser(Len(s), p + e.k + 1)
      [] e.op \in {"lo", "hi"} -> p
      [] e.op = "take" -> Lesser(Len(s), p + e.k)
      [] OTHER -> Len(s)
\* what the step may show
Shows(s, p, e) ==
    CASE e.op \in {"next", "nth"} -> e.r = Nth(s, p, e.k)
      [] e.op = "lo" -> e.k <= Len(s) - p
      [] e.op = "hi" -> e.k >= Len(s) - p
      [] e.op = "count" -> e.k = Len(s) - p
      [] e.op = "last" -> e.r = (IF p < Len(s) THEN <<s[Len(s)]>> ELSE <<>>)
      [] e.op = "skip" -> e.r = Rest(s, Lesser(Len(s), p + e.k))
      [] e.op = "step" -> e.r = StepBy(s, p, e.k)
      [] e.op = "take" -> e.r = SubSeq(s, p + 1, Lesser(Len(s), p + e.k))

RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(s, p, es, i) ==
    IF i > Len(es) THEN TRUE ELSE Shows(s, p, es[i]) /\ WalkFrom(s, Moves(s, p, es[i]), es, i + 1)
Walks(s, es) == WalkFrom(s, 0, es, 1)
===========================================================================
