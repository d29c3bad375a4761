--------------------------- MODULE AudioEditTrace ---------------------------
(* C14: what the real audio filters accept, declare and return. *)
EXTENDS AudioEdit, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, K
vars == <<l, K>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
Info(i) == [bits |-> i[1], st |-> i[2], lay |-> i[3], rate |-> i[4], len |-> i[5]]
Frames(len) == len[1] + (IF len[2] > 0 THEN 1 ELSE 0)
\* sources number their samples modulo a prime
Prime(c) == IF c.bits <= 20 THEN 4093 ELSE 262139
PMod(p, m) == ((p[1] % m) * Q + p[2]) % m
\* one channel of one frame: left samples from pos on, told as runs <<source, channel, position, step, count>>
\* st = <<position, samples left, run, offset in the run, what is wrong>>; a step takes what the present run and the present piece of the clip have in common
WalkStep(c, ch, runs, st) ==
  IF st[2] = 0 \/ st[5] # <<>> THEN st
  ELSE IF st[3] > Len(runs) THEN [st EXCEPT ![5] = <<"samples missing", ch, st[1]>>]
  ELSE LET F(g, r, m) == LET k == MinI(MinI(st[2], g[5]), r[5] - st[4]) IN
             IF r[1] = g[1] /\ (g[1] = 0 \/ (r[2] = g[2] /\ (r[3] + r[4] * st[4]) % m = PMod(g[3], m) /\ (k = 1 \/ r[4] = g[4])))
             THEN The({<<Add(st[1], Num(n)), st[2] - n, IF st[4] + n = r[5] THEN st[3] + 1 ELSE st[3], IF st[4] + n = r[5] THEN 0 ELSE st[4] + n, <<>>>> : n \in {k}})
             ELSE [st EXCEPT ![5] = <<"channel", ch, "position", st[1], "must be source, channel, position, step", g>>]
       IN The({F(t[1], t[2], t[3]) : t \in {<<Seg(K, c, ch, st[1], 1), runs[st[3]], Prime(c)>>}})
Sixty == [i \in 1..60 |-> i]
Walk(c, ch, pos, left, runs) ==
  \A st \in {FoldLeft(LAMBDA s1, i : IF s1[2] = 0 \/ s1[5] # <<>> THEN s1 ELSE FoldLeft(LAMBDA s2, j : WalkStep(c, ch, runs, s2), s1, Sixty), <<pos, left, 1, 0, <<>>>>, Sixty)} :
    /\ Rule(st[5] = <<>>, "sample", st[5])
    /\ Rule(st[3] = Len(runs) + 1, "samples too many", <<ch, st[1]>>)
FrameRule(c, r) == LET start == <<r.n, 0>> n == Cap(Sub(c.len, start)) IN
  /\ Rule(r.len = n, "frame length", n) /\ Rule(Len(r.ch) = Len(c.lay), "channels", Len(c.lay))
  /\ \A ch \in 1..Len(r.ch) : Walk(c, ch, start, n, r.ch[ch])
\* ---- waveforms: frequency is j/2^k of the rate, amplitude A/4096
Pow(n) == 2 ^ n
Wave(w, t, P) == CASE w = "slope" -> 2 * t - P [] w = "square" -> IF 2 * t < P THEN P ELSE -P
                   [] w = "triangle" -> IF 4 * t < P THEN 4 * t ELSE IF 4 * t < 3 * P THEN 2 * P - 4 * t ELSE 4 * t - 4 * P
                   [] w = "sine" -> IF t = 0 \/ 2 * t = P THEN 0 ELSE IF 2 * t < P THEN P ELSE -P
RoundDiv(x, d) == IF x >= 0 THEN (2 * x + d) \div (2 * d) ELSE -((2 * (-x) + d) \div (2 * d))
Clamp(v, b) == IF v > Pow(b - 1) - 1 THEN Pow(b - 1) - 1 ELSE IF v < -Pow(b - 1) THEN -Pow(b - 1) ELSE v
WaveRule(e, r) ==
  LET P == Pow(e.k) t == ((r[1] % P) * (e.j % P)) % P num == Wave(e.w, t, P) x == e.A * num IN
  IF e.w = "sine" /\ e.k = 3 /\ t % 2 = 1 THEN LET v == IF (t < 4) = (e.A >= 0) THEN r[2] ELSE -r[2] a == 8 * e.A IN v >= 0 /\ (v = 0 \/ (2 * v - 1) * (2 * v - 1) <= 2 * a * a) /\ 2 * a * a < (2 * v + 1) * (2 * v + 1)
  ELSE IF e.st = 1 THEN r[2] = x * Pow(5 - e.k)
  ELSE IF e.bits = 32 THEN IF x >= 4096 * P THEN r[2] = 32767 /\ r[3] = 65535 ELSE IF x <= -4096 * P THEN r[2] = -32768 /\ r[3] = 0 ELSE r[2] = (x * 8) \div P /\ r[3] = ((x * 8) % P) * Pow(16 - e.k)
  ELSE LET s == e.bits - 13 - e.k IN r[2] = Clamp(IF s >= 0 THEN x * Pow(s) ELSE RoundDiv(x, Pow(-s)), e.bits)
Step == LET e == T[l] IN
  CASE e.op = "src" -> K' = (e.id :> (Info(e.info) @@ [f |-> "source", id |-> e.id, ins |-> <<>>, a |-> <<>>])) @@ K
    [] e.op = "call" ->
         \A ins \in {[j \in 1..Len(e.ins) |-> K[e.ins[j]]]} : \A rej \in {Rejects(e.f, ins, e.a)} :
           /\ Rule((e.ok = 0) = rej, IF rej THEN "must be rejected" ELSE "must be accepted", <<e.f, e.a, [j \in 1..Len(ins) |-> [x \in {"bits", "st", "lay", "rate", "len"} |-> ins[j][x]]]>>)
           /\ Rule(e.ok = 1 \/ e.err # "", "no error message", e.f)
           /\ IF e.ok = 0 THEN UNCHANGED K
              ELSE /\ Rule(Len(e.outs) = (IF e.f = "SplitChannels" THEN Len(ins[1].lay) ELSE 1), "number of clips", Len(e.outs))
                   /\ \A k \in 1..Len(e.outs) : \A i \in {OutInfo(e.f, ins, IF e.f = "SplitChannels" THEN [k |-> k] ELSE e.a)} : Rule(Info(e.outs[k].info) = i /\ e.outs[k].info[6] = Frames(i.len), "declared clip", i)
                   /\ K' = [id \in {e.outs[k].id : k \in 1..Len(e.outs)} |-> LET k == CHOOSE k \in 1..Len(e.outs) : e.outs[k].id = id a == IF e.f = "SplitChannels" THEN [k |-> k] ELSE e.a
                                                                              IN OutInfo(e.f, ins, a) @@ [f |-> e.f, ins |-> e.ins, a |-> a, id |-> id]] @@ K
    [] e.op = "get" -> (\A j \in 1..Len(e.rows) : FrameRule(K[e.id], e.rows[j])) /\ UNCHANGED K
    [] e.op = "wave" -> /\ IF e.bad = 1 THEN Rule(e.ok = 0, "must be rejected", e) ELSE Rule(e.ok = 1 /\ e.chsame = 1, "waveform", e) /\ \A j \in 1..Len(e.rows) : Rule(WaveRule(e, e.rows[j]), "waveform sample", <<e.w, e.bits, e.k, e.j, e.A, e.rows[j]>>)
                        /\ UNCHANGED K
Init == l = 1 /\ K = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
