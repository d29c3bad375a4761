------------------------------- MODULE SeqMC --------------------------------
(* Laws of slicing for every slice of every short sequence.                  *)
EXTENDS Seq
CONSTANTS MaxLen, Reach
VARIABLES n, s
vars == <<n, s>>
O == {<<>>} \union {<<i>> : i \in -Reach..Reach}
Init == n \in 1..MaxLen /\ s \in {x \in O \X O \X O : x[3] # <<0>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Id == [i \in 1..n |-> i - 1]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
R == Slice(Id, s)
Elements == {R[i] : i \in 1..Len(R)} = SliceSet(s, n) /\ Cardinality(SliceSet(s, n)) = Len(R)
Direction == \A i \in 1..Len(R) - 1 : R[i + 1] - R[i] = Step(s)
(* slices as the module builds them: a trim, a reversal, every k-th          *)
Trim(q, first, last) == SubSeq(q, first + 1, last + 1)
Every(q, k) == [i \in 1..((Len(q) + k - 1) \div k) |-> q[(i - 1) * k + 1]]
Built ==
    LET a == Start(s, n)  b == Stop(s, n)  k == Step(s) IN
    IF k > 0 THEN Every(Trim(Id, a, b - 1), k) ELSE Every(Rev(Trim(Id, b + 1, a)), 0 - k)
Construction == Built = R
Halves == s[3] = <<>> /\ s[1] = <<>> /\ s[2] # <<>> => R \o Slice(Id, <<s[2], <<>>, <<>>>>) = Id
Whole == Slice(Id, <<<<>>, <<>>, <<-1>>>>) = Rev(Id)
Twice == Slice(Repeat(Id, 2), <<<<n>>, <<>>, <<>>>>) = Id
=============================================================================
