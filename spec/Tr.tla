-------------------------------- MODULE Tr --------------------------------
(* A recorded trace of the real code and the cursor into it.  Every line is *)
(* one public call with its arguments and the answers of the public queries *)
(* afterwards.  PROP names the property being judged: the model state always *)
(* follows the specification, but only the clauses of that property are     *)
(* compared with the recorded answers.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLE l

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
J(ps, cond) == IF Prop \in ps \/ Prop = "ALL" THEN cond ELSE TRUE
Range(s) == {s[i] : i \in DOMAIN s}

Accepted == /\ PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
