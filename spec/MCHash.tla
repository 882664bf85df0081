------------------------------ MODULE MCHash ------------------------------
(* The derived hash sequence as a transition system: the three accumulators *)
(* of the iterator (value, increment, index) stepped as the code steps      *)
(* them, against the closed form of the specification.                      *)
EXTENDS Word
CONSTANTS N          \* number of steps explored
VARIABLES h, a, b, c
vars == <<h, a, b, c>>

Words == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<0, 0, 0, 32768>>,
          <<65535, 65535, 0, 0>>, <<0, 0, 1, 0>>, <<52719, 35243, 17767, 291>>, <<12816, 30292, 47768, 65244>>}

Init == /\ h \in Words \X Words
        /\ a = h[1] /\ b = h[2] /\ c = 0

Step == /\ c < N
        /\ a' = Add(a, b)
        /\ b' = Add(b, FromInt(c))
        /\ c' = c + 1
        /\ UNCHANGED h

Next == Step
Spec == Init /\ [][Next]_vars

ClosedForm == a = Derived(h[1], h[2], c)
Limbs == \A i \in 1..4 : a[i] \in 0..65535 /\ b[i] \in 0..65535
\* the arithmetic helpers agree with each other
Arith == /\ Mod(a, 1) = 0 /\ Mod(a, 256) = a[1] % 256 /\ Mod(a, 65536) = a[1]
         /\ Mod(a, 3) = (a[1] + a[2] + a[3] + a[4]) % 3          \* 2^16 = 1 mod 3
         /\ Mod(a, 65535) = ((a[1] + a[2] + a[3] + a[4]) % 65535)
         /\ Mod(a, 65537) = (a[1] - a[2] + a[3] - a[4] + 131074) % 65537
         /\ Add(a, b) = Add(b, a)
         /\ Less(a, b) = (~Less(b, a) /\ a # b)
         /\ \A j \in 0..63 : Bit(a, j) \in {0, 1}
         /\ Scale(a, 3) = Add(a, Add(a, a))
         /\ \A n \in {16383, 16384, 16385, 65536, 1000000, 536870911} : Times(a, n) = Add(Times(a, n - 1), a)
\* the word version of the tetrahedral numbers: equal to the direct one, and with the right differences
ASSUME \A i \in {0, 1, 2, 3, 1597, 1598, 1599} : TetraWord(i) = FromInt(Tetra(i))
ASSUME \A i \in (1590..1700) \cup (16370..16400) \cup (40000..40050) : Sub(TetraWord(i + 1), TetraWord(i)) = FromInt(IF i % 2 = 0 THEN (i \div 2) * (i - 1) ELSE i * ((i - 1) \div 2))
ASSUME \A i \in (65530..65545) \cup (1048570..1048585) \cup (536870900..536870907) :
         Sub(Sub(TetraWord(i + 2), TetraWord(i + 1)), Sub(TetraWord(i + 1), TetraWord(i))) = FromInt(i)
===========================================================================
