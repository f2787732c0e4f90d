------------------------------ MODULE IntLaws ------------------------------
(* SmallLaws of IntSpec for all pairs of N-bit values, both signednesses *)
EXTENDS IntSpec
CONSTANT N
VARIABLES s, a, b
Init == s \in BOOLEAN /\ a \in {ToBits(v, N) : v \in 0..Pow(N) - 1} /\ b \in {ToBits(v, N) : v \in 0..Pow(N) - 1}
Next == FALSE /\ UNCHANGED <<s, a, b>>
Spec == Init /\ [][Next]_<<s, a, b>>
InvLaws == Laws(s, a, b)
============================================================================
