------------------------------- MODULE Reorder -------------------------------
(* C13: clips as sequences of frames, and the filters which only pick frames.
   A frame is <<source, number in the source, duration numerator, duration denominator>>
   (-1: the property is absent).  Every filter is defined twice: Build constructs the
   sequence of frames the documentation describes, Pick says for one output frame number
   which frame of which input it is.  ReorderMC shows that both agree; the traces use
   Build for clips short enough to be written down and Pick for the others. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
MAX == 2147483647
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* a rational times mul/div, reduced; an invalid one (denominator 0) or an incomplete one stays
MulDiv(r, mul, div) == IF r[1] = -1 \/ r[2] <= 0 THEN r ELSE LET n == r[1] * mul d == r[2] * div g == Gcd(n, d) IN <<n \div g, d \div g>>
Adj(f, mul, div) == LET r == MulDiv(<<f[3], f[4]>>, mul, div) IN <<f[1], f[2], r[1], r[2]>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Last0(s, n) == s[IF n >= Len(s) THEN Len(s) ELSE n + 1]      \* requests beyond the end give the last frame
Lens(ins) == [i \in 1..Len(ins) |-> ins[i].len]
Opt(x, d) == IF x = <<>> THEN d ELSE x[1]
---------------------------------------------------------------------------
(* arguments: Trim first, last, length (optional: <<>> or <<v>>); Loop times (optional); Interleave extend, modify, mismatch;
   SelectEvery cycle, offsets, modify; Splice mismatch; Duplicate/DeleteFrames frames; FreezeFrames first, last, repl (lists) *)
TrimLast(a, len) == IF a.last # <<>> THEN a.last[1] ELSE IF a.length # <<>> THEN Opt(a.first, 0) + a.length[1] - 1 ELSE len - 1
Ranges(a) == [i \in 1..Len(a.first) |-> <<IF a.first[i] <= a.last[i] THEN a.first[i] ELSE a.last[i], IF a.first[i] <= a.last[i] THEN a.last[i] ELSE a.first[i], a.repl[i]>>]
AllSame(ins, P(_)) == \A i \in 1..Len(ins) : P(ins[i]) = P(ins[1])
Dim(c) == <<c.w, c.h>>
Fmt(c) == c.fmt
Fps(c) == <<c.num, c.den>>
CommonDim(ins) == IF AllSame(ins, Dim) THEN Dim(ins[1]) ELSE <<0, 0>>
CommonFmt(ins) == IF AllSame(ins, Fmt) THEN Fmt(ins[1]) ELSE "none"
CommonFps(ins) == IF AllSame(ins, Fps) THEN Fps(ins[1]) ELSE <<0, 0>>
SumFits(ls) == FoldLeft(LAMBDA acc, x : IF acc = -1 \/ x > MAX - acc THEN -1 ELSE acc + x, 0, ls) # -1
SelTail(a, len) == Len(SelectSeq(a.offsets, LAMBDA o : o < len % a.cycle))

Rejects(f, ins, a) ==
  LET len == IF ins = <<>> THEN 0 ELSE ins[1].len IN
  CASE f = "Trim" -> LET first == Opt(a.first, 0) IN
         \/ first < 0 \/ first >= len
         \/ a.last # <<>> /\ a.length # <<>>
         \/ a.last # <<>> /\ (a.last[1] < first \/ a.last[1] >= len)
         \/ a.length # <<>> /\ (a.length[1] < 1 \/ a.length[1] > len - first)
    [] f = "Reverse" -> FALSE
    [] f = "Loop" -> LET t == Opt(a.times, 0) IN t < 0 \/ (t > 0 /\ len > MAX \div t)
    [] f = "Interleave" -> LET k == Len(ins) IN
         k = 0 \/ (k > 1 /\ (\/ ~a.mismatch /\ ~(AllSame(ins, Dim) /\ AllSame(ins, Fmt) /\ AllSame(ins, Fps))
                             \/ IF a.extend THEN \E i \in 1..k : ins[i].len > MAX \div k ELSE \E i \in 1..k : ins[i].len - 1 > (MAX - i) \div k))
    [] f = "SelectEvery" -> \/ a.cycle < 2 \/ a.offsets = <<>> \/ \E i \in 1..Len(a.offsets) : a.offsets[i] < 0 \/ a.offsets[i] >= a.cycle
                            \/ LET full == len \div a.cycle tail == SelTail(a, len) IN (full = 0 /\ tail = 0) \/ full > (MAX - tail) \div Len(a.offsets)
    [] f = "Splice" -> Len(ins) = 0 \/ (Len(ins) > 1 /\ (~SumFits(Lens(ins)) \/ (~a.mismatch /\ (CommonDim(ins) # Dim(ins[1]) \/ CommonFmt(ins) # Fmt(ins[1])))))
    [] f = "DuplicateFrames" -> a.frames = <<>> \/ (\E i \in 1..Len(a.frames) : a.frames[i] < 0 \/ a.frames[i] >= len) \/ Len(a.frames) > MAX - len
    [] f = "DeleteFrames" -> a.frames = <<>> \/ (\E i \in 1..Len(a.frames) : a.frames[i] < 0 \/ a.frames[i] >= len) \/ ~IsInjective(a.frames) \/ Len(a.frames) >= len
    [] f = "FreezeFrames" -> Len(a.first) # Len(a.last) \/ Len(a.first) # Len(a.repl)
                             \/ LET R == Ranges(a) IN \/ \E i \in 1..Len(R) : R[i][1] < 0 \/ R[i][2] >= len \/ R[i][3] < 0 \/ R[i][3] >= len
                                                      \/ \E i, j \in 1..Len(R) : i < j /\ R[i][1] <= R[j][2] /\ R[j][1] <= R[i][2]

OutLen(f, ins, a) ==
  LET len == ins[1].len IN
  CASE f = "Trim" -> TrimLast(a, len) - Opt(a.first, 0) + 1
    [] f = "Loop" -> IF Opt(a.times, 0) = 0 THEN MAX ELSE len * a.times[1]
    [] f = "Interleave" -> LET k == Len(ins) IN IF k = 1 THEN len ELSE IF a.extend THEN k * MaxOf({ins[i].len : i \in 1..k}) ELSE MaxOf({(ins[i].len - 1) * k + i : i \in 1..k})
    [] f = "SelectEvery" -> (len \div a.cycle) * Len(a.offsets) + SelTail(a, len)
    [] f = "Splice" -> FoldLeft(+, 0, Lens(ins))
    [] f = "DuplicateFrames" -> len + Len(a.frames)
    [] f = "DeleteFrames" -> len - Len(a.frames)
    [] OTHER -> len
OutFps(f, ins, a) ==
  CASE f = "Interleave" -> IF Len(ins) > 1 /\ a.modify THEN MulDiv(CommonFps(ins), Len(ins), 1) ELSE CommonFps(ins)
    [] f = "SelectEvery" -> IF a.modify THEN MulDiv(Fps(ins[1]), Len(a.offsets), a.cycle) ELSE Fps(ins[1])
    [] OTHER -> CommonFps(ins)
OutInfo(f, ins, a) == LET d == CommonDim(ins) p == OutFps(f, ins, a) IN [w |-> d[1], h |-> d[2], fmt |-> CommonFmt(ins), num |-> p[1], den |-> p[2], len |-> OutLen(f, ins, a)]
---------------------------------------------------------------------------
\* how the frames' durations are scaled
Scale(f, k, a) == CASE f = "Interleave" -> IF k > 1 /\ a.modify THEN <<1, k>> ELSE <<1, 1>>
                    [] f = "SelectEvery" -> IF a.modify THEN <<Len(a.offsets), a.cycle>> ELSE <<1, 1>>
                    [] OTHER -> <<1, 1>>
Scaled(f, k, a, x) == IF f = "SelectEvery" /\ a.modify THEN Adj(x, a.cycle, Len(a.offsets)) ELSE IF f = "Interleave" /\ k > 1 /\ a.modify THEN Adj(x, 1, k) ELSE x
\* the frames of the result, constructed from the frames of the inputs
Frames(f, ss, a) ==
  LET s == ss[1] len == Len(s) IN
  CASE f = "Trim" -> SubSeq(s, Opt(a.first, 0) + 1, TrimLast(a, len) + 1)
    [] f = "Reverse" -> Reverse(s)
    [] f = "Loop" -> FlattenSeq([i \in 1..a.times[1] |-> s])
    [] f = "Interleave" -> LET k == Len(ss) longest == MaxOf({Len(ss[i]) : i \in 1..k})
                               all == FlattenSeq([n \in 1..longest |-> [i \in 1..k |-> Last0(ss[i], n - 1)]])
                               \* without extend the clip stops at the last frame of the last of the longest clips
                               stop == MaxOf({i \in 1..k : Len(ss[i]) = longest})
                           IN IF a.extend THEN all ELSE SubSeq(all, 1, (longest - 1) * k + stop)
    [] f = "SelectEvery" -> FlattenSeq([c \in 1..(len \div a.cycle + 1) |-> LET b == (c - 1) * a.cycle os == SelectSeq(a.offsets, LAMBDA o : b + o < len) IN [j \in 1..Len(os) |-> s[b + os[j] + 1]]])
    [] f = "Splice" -> FlattenSeq(ss)
    [] f = "DuplicateFrames" -> FlattenSeq([n \in 1..len |-> [j \in 1..(1 + Len(SelectSeq(a.frames, LAMBDA d : d = n - 1))) |-> s[n]]])
    [] f = "DeleteFrames" -> LET kept == SelectSeq([n \in 1..len |-> n], LAMBDA n : \A j \in 1..Len(a.frames) : a.frames[j] # n - 1) IN [j \in 1..Len(kept) |-> s[kept[j]]]
    [] f = "FreezeFrames" -> LET R == Ranges(a) IN [n \in 1..len |-> LET H == {j \in 1..Len(R) : R[j][1] <= n - 1 /\ n - 1 <= R[j][2]} IN IF H = {} THEN s[n] ELSE s[R[CHOOSE j \in H : TRUE][3] + 1]]
Build(f, ss, a) == LET r == Frames(f, ss, a) IN IF f \in {"Interleave", "SelectEvery"} THEN [n \in 1..Len(r) |-> Scaled(f, Len(ss), a, r[n])] ELSE r
\* <<input, frame number>> for output frame n, from the lengths of the inputs alone
Pick(f, ls, a, n) ==
  LET len == ls[1] IN
  CASE f = "Trim" -> <<1, n + Opt(a.first, 0)>>
    [] f = "Reverse" -> <<1, len - 1 - n>>
    [] f = "Loop" -> <<1, n % len>>
    [] f = "Interleave" -> LET k == Len(ls) i == (n % k) + 1 m == n \div k IN <<i, IF m >= ls[i] THEN ls[i] - 1 ELSE m>>
    [] f = "SelectEvery" -> LET num == Len(a.offsets) c == n \div num b == c * a.cycle IN
         IF c < len \div a.cycle THEN <<1, b + a.offsets[(n % num) + 1]>> ELSE <<1, b + SelectSeq(a.offsets, LAMBDA o : o < len % a.cycle)[(n % num) + 1]>>
    [] f = "Splice" -> LET r == FoldLeft(LAMBDA acc, x : IF acc[1] # 0 THEN acc ELSE IF acc[3] < x THEN <<acc[2], acc[3], acc[3]>> ELSE <<0, acc[2] + 1, acc[3] - x>>, <<0, 1, n>>, ls) IN <<r[1], r[3]>>
    [] f = "DuplicateFrames" -> LET ok(m) == m + Len(SelectSeq(a.frames, LAMBDA d : d < m)) <= n   \* the last frame starting at or before n
                                    S == {m \in (IF n > Len(a.frames) THEN n - Len(a.frames) ELSE 0)..n : m < len /\ ok(m)} IN <<1, MaxOf(S)>>
    [] f = "DeleteFrames" -> LET S == {m \in n..(IF n > MAX - Len(a.frames) THEN MAX ELSE n + Len(a.frames)) : m - Len(SelectSeq(a.frames, LAMBDA d : d < m)) = n /\ \A j \in 1..Len(a.frames) : a.frames[j] # m} IN <<1, MinOf(S)>>
    [] f = "FreezeFrames" -> LET R == Ranges(a) H == {j \in 1..Len(R) : R[j][1] <= n /\ n <= R[j][2]} IN IF H = {} THEN <<1, n>> ELSE <<1, R[CHOOSE j \in H : TRUE][3]>>
=============================================================================
