----------------------------- MODULE AudioEditMC -----------------------------
(* Chains of audio edits over short clips with a frame size of 3: the segment definition
   gives at every position, in both directions, the sample of the constructed sequence. *)
EXTENDS AudioEdit
CONSTANT Depth
VARIABLES K, ss, depth      \* the clips, the samples of each; the last is the result, the first two are sources
vars == <<K, ss, depth>>
N == Len(K)
cl == K[N]
s == ss[N]
Src(id, lay, len) == [bits |-> 16, st |-> 0, lay |-> lay, rate |-> 48000, len |-> Num(len), f |-> "source", id |-> id, ins |-> <<>>, a |-> <<>>]
SrcS(c) == [ch \in 1..Len(c.lay) |-> [n \in 1..(c.len[1] * Q + c.len[2]) |-> <<c.id, ch, n - 1>>]]
V(c) == c.len[1] * Q + c.len[2]
O == Src(2, <<0, 1>>, 4)
P(S) == {<<>>} \cup {<<Num(x)>> : x \in S}
FNames == {"AudioTrim", "AudioSplice", "AudioLoop", "AudioReverse", "ShuffleChannels", "SplitChannels", "AssumeSampleRate", "BlankAudio"}
ArgsOf(f, c) ==
  CASE f = "AudioTrim" -> {[first |-> x, last |-> y, length |-> z] : x \in P(0..V(c)), y \in P({0, 2, 3, V(c) - 1, V(c)}), z \in P({0, 1, 3, 4, V(c)})}
    [] f = "AudioLoop" -> {[times |-> <<x>>] : x \in 1..3}
    [] f = "ShuffleChannels" -> {[in |-> x, out |-> y] : x \in UNION {[1..i -> {-2, -1, 0, 1, 5}] : i \in 1..2}, y \in {<<0>>, <<3>>, <<0, 1>>, <<5, 2>>}}
    [] f = "SplitChannels" -> {[k |-> x] : x \in 1..Len(c.lay)}
    [] f = "AssumeSampleRate" -> {[rate |-> x] : x \in {<<0>>, <<1>>, <<96000>>}}
    [] f = "BlankAudio" -> {[bits |-> <<>>, st |-> <<>>, chans |-> x, rate |-> <<>>, length |-> y] : x \in {<<>>, <<3, 1>>, <<1, 1>>}, y \in P(0..4)}
    [] OTHER -> {<<>>}
Ins(f) == IF f = "AudioSplice" THEN {<<N>>, <<N, 1>>, <<1, N, 1>>} ELSE IF f = "ShuffleChannels" THEN {<<N>>, <<N, 1>>, <<1, N>>} ELSE {<<N>>}
Init == \E n \in 1..8 : \E lay \in {<<0, 1>>, <<5>>} : K = <<O, Src(1, lay, n)>> /\ ss = <<SrcS(O), SrcS(K[2])>> /\ depth = 0
Next == /\ depth < Depth /\ V(cl) <= 12
        /\ \E f \in FNames : \E ids \in Ins(f) : \E a \in ArgsOf(f, cl) :
           LET ins == [j \in 1..Len(ids) |-> K[ids[j]]] IN
           /\ ~Rejects(f, ins, a)
           /\ LET i == OutInfo(f, ins, a) c == i @@ [f |-> f, ins |-> ids, a |-> a]
              IN K' = Append(K, c) /\ ss' = Append(ss, [ch \in 1..Len(i.lay) |-> Samples(f, ins, [j \in 1..Len(ids) |-> ss[ids[j]]], a, i, ch)])
           /\ depth' = depth + 1
Spec == Init /\ [][Next]_vars
Name(g, k) == IF g[1] = 0 THEN <<0, 0, 0>> ELSE <<g[1], g[2], g[3][1] * Q + g[3][2] + g[4] * k>>
Agree == /\ Len(s) = Len(cl.lay) /\ V(cl) >= 1
         /\ \A ch \in 1..Len(s) : /\ Len(s[ch]) = V(cl)
              /\ \A p \in 0..(V(cl) - 1) :
                 /\ LET g == Seg(K, cl, ch, Num(p), 1) IN g[5] \in 1..Q /\ \A k \in 0..(MinI(g[5], V(cl) - p) - 1) : Name(g, k) = s[ch][p + k + 1]
                 /\ LET g == Seg(K, cl, ch, Num(p), -1) IN g[5] \in 1..Q /\ \A k \in 0..(MinI(g[5], p + 1) - 1) : Name(g, k) = s[ch][p - k + 1]
\* the pair arithmetic against plain integers
Arith == depth > 0 \/ \A x, y \in 0..30 : LET a == Num(x) b == Num(y) IN
  /\ Add(a, b) = Num(x + y) /\ (x >= y => Sub(a, b) = Num(x - y)) /\ (Lt(a, b) <=> x < y) /\ (y > 0 => Mod(a, b) = Num(x % y)) /\ Times(a, y) = Num(x * y)
  /\ (Q = 3 => (TimesFits(a, MAX) <=> x <= 3) /\ (TimesFits(a, MAX \div 2) <=> x <= 6) /\ (TimesFits(a, (MAX \div 2) + 1) <=> x <= 5) /\ (TimesFits(a, MAX \div 3) <=> x <= 9))
=============================================================================
