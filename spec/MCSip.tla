------------------------------- MODULE MCSip ------------------------------
(* The reference vectors of SipHash 2-4 (key 00..0f, message 00..n-1).      *)
EXTENDS SipHash
VARIABLE n
K0 == <<256, 770, 1284, 1798>>
K1 == <<2312, 2826, 3340, 3854>>
Msg(k) == [i \in 1..k |-> i - 1]
Init == n = 0
Next == n < 20 /\ n' = n + 1
Spec == Init /\ [][Next]_n
Reference == /\ n = 0 => Hash(K0, K1, Msg(0)) = <<3633, 56590, 56135, 29295>>
             /\ n = 15 => Hash(K0, K1, Msg(15)) = <<17893, 18878, 51809, 41257>>
Words == \A j \in 1..4 : Hash(K0, K1, Msg(n))[j] \in 0..65535
Rotations == LET x == Hash(K0, K1, Msg(n)) IN \A b \in {1, 13, 16, 21, 32, 47, 63} : Rotl(Rotl(x, b), 64 - b) = x
===========================================================================
