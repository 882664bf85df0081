----------------------------- MODULE TraceMany ----------------------------
(* Recorded histories of large populations.                                 *)
EXTENDS Tr, Many

VARIABLES m
vars == <<l, m>>
Nothing == [kind |-> "none"]
Init == l = 1 /\ m = Nothing
Run == Is("run") /\ m' = Nothing

Here == {"C05", "C06", "C07", "C08", "C09", "C22", "C23"}
Obs(u, o) ==
    /\ J(Here \ {"C06", "C09"}, \A j \in DOMAIN o.has : o.has[j] = Present(u, u.at[j]))
    /\ J(Here \ {"C05"}, /\ o.len + o.extra = Number(u)
                         /\ o.empty = (Number(u) = 0)
                         /\ o.extra >= 0)
    /\ u.kind = "quotient" => J(Here, o.cap = u.cap /\ o.extra = 0)
    /\ u.kind = "cuckoo" => J({"C06"}, o.cap = u.cap /\ o.len <= o.cap /\ o.near = (o.extra > 0))
    /\ u.kind \in {"bits", "strs"} => J(Here, o.cap = u.cap /\ o.zeros = u.cap - Number(u))

\* distinct elements: as many as `bits` bits tell apart, or places of the vector
New == /\ Is("mnew")
       /\ E.chunk * E.chunks <= (IF E.kind \in {"bits", "strs"} THEN E.cap ELSE 2^E.bits)
       /\ \A j \in DOMAIN E.at : E.at[j] < (IF E.kind \in {"bits", "strs"} THEN E.cap ELSE 2^E.bits)
       /\ m' = [kind |-> E.kind, cap |-> E.cap, chunk |-> E.chunk, at |-> E.at, in |-> {}]
       /\ Obs(m', E.o)
Put == Is("mput") /\ m' = PutChunk(m, E.c) /\ Obs(m', E.o)
Take == Is("mtake") /\ m' = TakeChunk(m, E.c) /\ Obs(m', E.o)
Clear == Is("mclear") /\ m' = [m EXCEPT !.in = {}] /\ Obs(m', E.o)

Next == Run \/ New \/ Put \/ Take \/ Clear
Spec == Init /\ [][Next]_vars
===========================================================================
