------------------------------ MODULE ReorderMC ------------------------------
(* Every filter with every argument of a small scope on clips built by up to two steps:
   the construction and the frame-number formula agree, lengths agree, and the laws which
   connect the filters hold. *)
EXTENDS Reorder
CONSTANT Depth
VARIABLES cl, how, depth
vars == <<cl, how, depth>>
Src(id, len) == [w |-> 8, h |-> 4, fmt |-> "A", num |-> 24, den |-> 1, len |-> len, m |-> [n \in 1..len |-> <<id, n - 1, n, 24>>]]
Sub(len) == 0..(len - 1)
OptV(S) == {<<>>} \cup {<<x>> : x \in S}
Seqs(S, k) == UNION {[1..i -> S] : i \in 1..k}
ArgsOf(f, len) ==
  CASE f = "Trim" -> {[first |-> x, last |-> y, length |-> z] : x \in OptV(-1..len), y \in OptV(-1..len), z \in OptV(0..(len + 1))}
    [] f = "Reverse" -> {[none |-> 0]}
    [] f = "Loop" -> {[times |-> <<x>>] : x \in 1..3}
    [] f = "Interleave" -> {[extend |-> x, modify |-> y, mismatch |-> FALSE] : x, y \in BOOLEAN}
    [] f = "SelectEvery" -> {[cycle |-> c, offsets |-> o, modify |-> y] : c \in 1..3, o \in Seqs(-1..2, 2), y \in BOOLEAN}
    [] f = "Splice" -> {[mismatch |-> FALSE]}
    [] f \in {"DuplicateFrames", "DeleteFrames"} -> {[frames |-> x] : x \in Seqs(-1..len, 3)}
    [] f = "FreezeFrames" -> {[first |-> x, last |-> y, repl |-> z] : x \in Seqs(0..len, 2), y \in Seqs(0..(len - 1), 2), z \in Seqs(Sub(len), 2)}
FNames == {"Trim", "Reverse", "Loop", "Interleave", "SelectEvery", "Splice", "DuplicateFrames", "DeleteFrames", "FreezeFrames"}
Ins(f, c, other) == IF f \in {"Interleave", "Splice"} THEN {<<c>>, <<c, other>>, <<other, c>>, <<c, other, c>>} ELSE {<<c>>}
Init == \E l \in 1..4 : cl = Src(1, l) /\ how = <<"source">> /\ depth = 0
Next == /\ depth < Depth /\ cl.len <= 4
        /\ \E f \in FNames : \E ins \in Ins(f, cl, Src(2, 2)) : \E a \in ArgsOf(f, cl.len) :
           /\ ~Rejects(f, ins, a)
           /\ LET i == OutInfo(f, ins, a) m == Build(f, [j \in 1..Len(ins) |-> ins[j].m], a)
              IN /\ cl' = [i EXCEPT !.len = Len(m)] @@ [m |-> m]
                 /\ how' = <<f, ins, a, i.len>>
           /\ depth' = depth + 1
Spec == Init /\ [][Next]_vars
Agree == how[1] = "source" \/ LET f == how[1] ins == how[2] a == how[3] IN
  /\ how[4] = Len(cl.m)
  /\ cl.len >= 1
  /\ \A n \in 0..(cl.len - 1) : LET p == Pick(f, Lens(ins), a, n) IN p[2] \in 0..(ins[p[1]].len - 1) /\ Scaled(f, Len(ins), a, ins[p[1]].m[p[2] + 1]) = cl.m[n + 1]
B1(f, s, a) == Build(f, <<s>>, a)
Laws == LET s == cl.m n == Len(cl.m) IN n > 5 \/
  /\ B1("Reverse", B1("Reverse", s, <<>>), <<>>) = s
  /\ \A k \in 1..(n - 1) : Build("Splice", <<B1("Trim", s, [first |-> <<>>, last |-> <<k - 1>>, length |-> <<>>]), B1("Trim", s, [first |-> <<k>>, last |-> <<>>, length |-> <<>>])>>, <<>>) = s
  /\ \A k \in 0..(n - 1) : B1("DeleteFrames", B1("DuplicateFrames", s, [frames |-> <<k>>]), [frames |-> <<k + 1>>]) = s
  /\ \A k \in 0..(n - 1) : B1("FreezeFrames", s, [first |-> <<k>>, last |-> <<k>>, repl |-> <<k>>]) = s
  /\ B1("Loop", s, [times |-> <<2>>]) = Build("Splice", <<s, s>>, <<>>)
  /\ LET r == Build("Interleave", <<s, B1("Reverse", s, <<>>)>>, [extend |-> TRUE, modify |-> FALSE, mismatch |-> FALSE])
     IN /\ B1("SelectEvery", r, [cycle |-> 2, offsets |-> <<0>>, modify |-> FALSE]) = s
        /\ B1("SelectEvery", r, [cycle |-> 2, offsets |-> <<1>>, modify |-> FALSE]) = B1("Reverse", s, <<>>)
        /\ B1("Reverse", r, <<>>) = Build("Interleave", <<s, B1("Reverse", s, <<>>)>>, [extend |-> TRUE, modify |-> FALSE, mismatch |-> FALSE])
=============================================================================
