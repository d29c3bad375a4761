----------------------------- MODULE FormatsMC ------------------------------
(* Laws of the rule itself, over every valid format. *)
EXTENDS Formats
VARIABLE todo
All == {p \in {1, 2, 3} \X {0, 1} \X (8..32) \X (0..4) \X (0..4) : ValidV(p[1], p[2], p[3], p[4], p[5])}
N(p) == NameV(p[1], p[2], p[3], p[4], p[5])
Id(p) == <<IdHi(p[1], p[2], p[3]), IdLo(p[4], p[5])>>
Init == todo = <<>>
Next == todo = <<>> /\ \E p \in All : todo' = p
Spec == Init /\ [][Next]_todo
Laws == todo # <<>> => LET p == todo d == Decode(Id(p)[1], Id(p)[2]) IN
   /\ <<d.cf, d.st, d.bits, d.w, d.h>> = p /\ Id(p)[1] < 65536 /\ Id(p)[1] >= 4096
   /\ \A q \in All : (N(p) = N(q) \/ Id(p) = Id(q)) => p = q
   /\ Bytes(p[3]) * 8 >= p[3] /\ (Bytes(p[3]) = 1 \/ Bytes(p[3]) * 4 < p[3]) /\ Len(N(p)) < 32
=============================================================================
