------------------------------ MODULE AudioEdit ------------------------------
(* C14: audio clips as channels of samples, and the filters which only move samples.
   Positions and lengths are pairs <<q, r>> standing for q * Q + r (Q is the frame size,
   3072 in the code) because they exceed TLC's integers.  A sample is named by its
   source, channel and position there; source 0 is silence.
   Two definitions: Samples builds the whole channel of a short clip as a sequence; Seg
   says, for a position and a direction, which samples the clip has there and for how many
   steps that stays true, however long the clip is.  AudioEditMC shows that they agree. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT Q
MAX == 2147483647
MinI(a, b) == CHOOSE x \in {IF p[1] < p[2] THEN p[1] ELSE p[2] : p \in {<<a, b>>}} : TRUE
\* ---- numbers
Norm(q, r) == CHOOSE x \in {<<p[1] + (p[2] \div Q), p[2] % Q>> : p \in {<<q, r>>}} : TRUE
Num(n) == <<n \div Q, n % Q>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == ~Lt(b, a)
Add(x, y) == CHOOSE z \in {Norm(p[1][1] + p[2][1], p[1][2] + p[2][2]) : p \in {<<x, y>>}} : TRUE
SubOf(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Q - b[2]>>
Sub(x, y) == CHOOSE z \in {SubOf(p[1], p[2]) : p \in {<<x, y>>}} : TRUE
Zero == <<0, 0>>
One == Num(1)
Limit == <<MAX, 0>>                                      \* the longest clip
Cap(a) == IF a[1] >= 1 THEN Q ELSE a[2]                   \* at most one frame
RECURSIVE Mod(_, _)
Mod(a, b) == IF Lt(a, b) THEN a ELSE IF b[1] > 1073741822 THEN Sub(a, b) ELSE CHOOSE x \in {IF Lt(m, b) THEN m ELSE Sub(m, b) : m \in {Mod(a, c) : c \in {Add(b, b)}}} : TRUE
Times(a, t) == LET x == a[2] * (t \div Q) y == a[2] * (t % Q) IN Norm(a[1] * t + x, y)
TimesFits(a, t) == /\ a[1] = 0 \/ t <= MAX \div a[1]
                   /\ LET x == a[2] * (t \div Q) y == a[2] * (t % Q) z == x + (y \div Q) IN z <= MAX - a[1] * t /\ (z = MAX - a[1] * t => y % Q = 0)
\* ---- clips: [bits, st, lay (ascending sequence of channel numbers), rate, len]
Opt(x, d) == IF x = <<>> THEN d ELSE x[1]
MaxLen(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Sorted(S) == SetToSortSeq(S, <)
ValidA(st, bits) == (st = 0 /\ bits \in 16..32) \/ (st = 1 /\ bits = 32)
Same(c, d) == <<c.bits, c.st, c.rate>> = <<d.bits, d.st, d.rate>>
TrimFirst(a) == Opt(a.first, Zero)
TrimLen(a, len) == IF a.last # <<>> THEN Sub(Add(a.last[1], One), TrimFirst(a)) ELSE IF a.length # <<>> THEN a.length[1] ELSE Sub(len, TrimFirst(a))
\* ShuffleChannels: the clip used for the i-th entry, and the channel of it (0: not there)
ShIn(ins, i) == MinI(i, Len(ins))
ShCh(c, ch) == IF ch < 0 THEN IF -ch <= Len(c.lay) THEN -ch ELSE 0 ELSE IF ch = 0 THEN 1 ELSE IF ch \in SetOf(c.lay) THEN CHOOSE k \in 1..Len(c.lay) : c.lay[k] = ch ELSE 0
ShEntry(a, o) == CHOOSE i \in 1..Len(a.out) : a.out[i] = o       \* which entry makes output channel number o
BlankFmt(ins, a) == LET has == ins # <<>> IN
  [bits |-> Opt(a.bits, IF has THEN ins[1].bits ELSE 16), st |-> Opt(a.st, IF has THEN ins[1].st ELSE 0), lay |-> IF a.chans # <<>> THEN a.chans ELSE IF has THEN ins[1].lay ELSE <<0, 1>>,
   rate |-> Opt(a.rate, IF has THEN ins[1].rate ELSE 44100)]
BlankLen(ins, a) == IF a.length # <<>> THEN a.length[1] ELSE IF ins # <<>> THEN ins[1].len ELSE LET r == BlankFmt(ins, a).rate IN Times(Num(r), 10)
Rejects(f, ins, a) ==
  CASE f = "AudioTrim" -> LET len == ins[1].len first == TrimFirst(a) IN
         \/ first[1] < 0 \/ ~Lt(first, len)
         \/ a.last # <<>> /\ a.length # <<>>
         \/ a.last # <<>> /\ (Lt(a.last[1], first) \/ ~Lt(a.last[1], len))
         \/ a.length # <<>> /\ (Lt(a.length[1], One) \/ Lt(Sub(len, first), a.length[1]))
    [] f = "AudioSplice" -> \/ Len(ins) = 0 \/ \E i \in 1..Len(ins) : ~Same(ins[1], ins[i]) \/ ins[i].lay # ins[1].lay
                            \/ FoldLeft(LAMBDA acc, c : IF acc[1] < 0 \/ Lt(Sub(Limit, acc), c.len) THEN <<-1, 0>> ELSE Add(acc, c.len), Zero, ins)[1] < 0
    [] f = "AudioLoop" -> LET t == Opt(a.times, 0) IN t < 0 \/ (t > 0 /\ ~TimesFits(ins[1].len, t))
    [] f = "AudioReverse" -> FALSE
    [] f = "ShuffleChannels" -> \/ Len(ins) = 0 \/ a.in = <<>> \/ Len(a.in) # Len(a.out) \/ Len(ins) > Len(a.in)
                                \/ (\E i \in 1..Len(a.in) : ~(a.in[i] \in -64..63) \/ ~(a.out[i] \in 0..63) \/ ShCh(ins[ShIn(ins, i)], a.in[i]) = 0)
                                \/ (\E i \in 1..Len(ins) : ~Same(ins[1], ins[i]))
                                \/ Cardinality(SetOf(a.out)) < Len(a.out)
    [] f = "SplitChannels" -> FALSE
    [] f = "AssumeSampleRate" -> LET n == Len(a.rate) + Len(ins) - 1 IN n # 1 \/ (a.rate # <<>> /\ a.rate[1] < 1)
    [] f = "BlankAudio" -> LET x == BlankFmt(ins, a) len == BlankLen(ins, a) IN
         \/ ~(SetOf(x.lay) \subseteq 0..63) \/ Cardinality(SetOf(x.lay)) < Len(x.lay) \/ x.rate < 1 \/ ~ValidA(x.st, x.bits) \/ Lt(len, One) \/ Lt(Limit, len)
\* the clip a filter makes; for SplitChannels the k-th one
OutInfo(f, ins, a) ==
  LET c == ins[1] g(lay, rate, len) == [bits |-> c.bits, st |-> c.st, lay |-> lay, rate |-> rate, len |-> len] IN
  CASE f = "AudioTrim" -> g(c.lay, c.rate, TrimLen(a, c.len))
    [] f = "AudioSplice" -> g(c.lay, c.rate, FoldLeft(LAMBDA acc, x : Add(acc, x.len), Zero, ins))
    [] f = "AudioLoop" -> g(c.lay, c.rate, IF Opt(a.times, 0) = 0 THEN Limit ELSE Times(c.len, a.times[1]))
    [] f = "AudioReverse" -> g(c.lay, c.rate, c.len)
    [] f = "ShuffleChannels" -> g(Sorted(SetOf(a.out)), c.rate, MaxLen({ins[i].len : i \in 1..Len(ins)}))
    [] f = "SplitChannels" -> g(<<c.lay[a.k]>>, c.rate, c.len)
    [] f = "AssumeSampleRate" -> g(c.lay, IF a.rate # <<>> THEN a.rate[1] ELSE ins[2].rate, c.len)
    [] f = "BlankAudio" -> LET x == BlankFmt(ins, a) IN [bits |-> x.bits, st |-> x.st, lay |-> Sorted(SetOf(x.lay)), rate |-> x.rate, len |-> BlankLen(ins, a)]
---------------------------------------------------------------------------
\* Seg(K, c, ch, pos, d): <<source, channel, position, step, for how many samples (at most Q)>> starting at pos going in direction d.
\* A clip here is its info with f, ins (the numbers of its inputs in K), a, and id for sources.
\* The and the singleton sets make TLC compute each argument once.
RECURSIVE Seg(_, _, _, _, _)
The(S) == CHOOSE x \in S : TRUE
Bound(s, n) == [s EXCEPT ![5] = MinI(@, n)]
Ahead(pos, len, d) == IF d = 1 THEN Cap(Sub(len, pos)) ELSE Cap(Add(pos, One))   \* samples left in this direction in a clip of that length
Silent(n) == <<0, 0, Zero, 0, n>>
SegOf(K, c, ch, pos, d) ==
  CASE c.f = "source" -> <<c.id, ch, pos, d, Q>>
    [] c.f = "BlankAudio" -> Silent(Q)
    [] c.f = "AudioTrim" -> Bound(Seg(K, K[c.ins[1]], ch, Add(pos, TrimFirst(c.a)), d), Ahead(pos, c.len, d))
    [] c.f = "AudioSplice" -> The({Bound(Seg(K, K[c.ins[w[1]]], ch, w[3], d), Ahead(w[3], K[c.ins[w[1]]].len, d)) : w \in {FoldLeft(LAMBDA acc, x : IF acc[1] # 0 THEN acc ELSE IF Lt(acc[3], K[x].len) THEN <<acc[2], acc[2], acc[3]>> ELSE <<0, acc[2] + 1, Sub(acc[3], K[x].len)>>, <<0, 1, pos>>, c.ins)}})
    [] c.f = "AudioLoop" -> The({Bound(Seg(K, K[c.ins[1]], ch, p, d), Ahead(p, K[c.ins[1]].len, d)) : p \in {Mod(pos, K[c.ins[1]].len)}})
    [] c.f = "AudioReverse" -> Seg(K, K[c.ins[1]], ch, Sub(Sub(c.len, One), pos), -d)
    [] c.f = "ShuffleChannels" -> LET i == ShEntry(c.a, c.lay[ch]) x == K[c.ins[ShIn(c.ins, i)]] IN
         IF Lt(pos, x.len) THEN Bound(Seg(K, x, ShCh(x, c.a.in[i]), pos, d), Ahead(pos, x.len, d))
         ELSE Silent(IF d = 1 THEN Q ELSE Cap(Add(Sub(pos, x.len), One)))
    [] c.f = "SplitChannels" -> Seg(K, K[c.ins[1]], c.a.k, pos, d)
    [] c.f = "AssumeSampleRate" -> Seg(K, K[c.ins[1]], ch, pos, d)
Seg(K, c, ch, pos, d) == The({SegOf(K, t[1], t[2], t[3], t[4]) : t \in {<<c, ch, pos, d>>}})
\* the same for short clips: channel ch of the result as a sequence, from the channels of the inputs (s[i][ch])
Samples(f, infos, s, a, out, ch) ==
  LET x == s[1][ch] v(n) == n[1] * Q + n[2] IN
  CASE f = "AudioTrim" -> SubSeq(x, v(TrimFirst(a)) + 1, v(TrimFirst(a)) + v(TrimLen(a, infos[1].len)))
    [] f = "AudioSplice" -> FlattenSeq([i \in 1..Len(s) |-> s[i][ch]])
    [] f = "AudioLoop" -> FlattenSeq([i \in 1..a.times[1] |-> x])
    [] f = "AudioReverse" -> Reverse(x)
    [] f = "ShuffleChannels" -> LET i == ShEntry(a, out.lay[ch]) j == ShIn(infos, i) y == s[j][ShCh(infos[j], a.in[i])] IN [n \in 1..v(out.len) |-> IF n <= Len(y) THEN y[n] ELSE <<0, 0, 0>>]
    [] f = "SplitChannels" -> s[1][a.k]
    [] f = "AssumeSampleRate" -> x
    [] f = "BlankAudio" -> [n \in 1..v(out.len) |-> <<0, 0, 0>>]
=============================================================================
