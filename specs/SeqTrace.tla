------------------------------ MODULE SeqTrace ------------------------------
(* What the Python module read from clips, and the clips that indexing,      *)
(* slicing, + and * made, against Seq. The bytes are those of Vspipe.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt, SequencesExt
S == INSTANCE Seq
V == INSTANCE Vspipe
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, clips
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
SetOf(s) == {s[i] : i \in 1..Len(s)}
Upto(n) == [i \in 1..n |-> i - 1]
Planned(n) == <<"Error", "planned failure " \o ToString(n)>>
None == <<"", "">>
MinOf(a, b) == IF a < b THEN a ELSE b

(* --------------------------------------------- what was asked of a source *)
Frames(o) == [i \in 1..Len(o.log) |-> o.log[i]]
Starts(g) == SelectSeq(g, LAMBDA x : x[1] = "s")
InFlight(g) ==
    FoldLeft(LAMBDA a, x : CASE x[1] = "s" -> <<a[1] + 1, IF a[1] + 1 > a[2] THEN a[1] + 1 ELSE a[2]>>
                             [] x[1] \in {"d", "f"} -> <<a[1] - 1, a[2]>> [] OTHER -> a, <<0, 0>>, g)
(* got frames were taken: those and at most a backlog of others were asked    *)
(* for, each once and in order, never more than prefetch of them at once, and *)
(* all of them were finished (over: read to the end or closed)                *)
Asked(o, g, got, most, n, over) ==
    \A st \in {Starts(g)} : \A ns \in {{st[i][2] : i \in 1..Len(st)}} : \A m \in {Len(st)} :
        /\ Rule(Cardinality(ns) = m /\ ns = {i - 1 : i \in 1..m}, "each frame asked for once, in order", st)
        /\ Rule(m >= got /\ m <= n /\ m <= most + S!Backlog(o.prefetch, o.backlog, o.threads), "asked for no more than the backlog", <<m, got, most, S!Backlog(o.prefetch, o.backlog, o.threads)>>)
        /\ \A fl \in {InFlight(g)} :
             /\ Rule(fl[2] <= S!Prefetch(o.prefetch, o.threads), "requests at once", <<fl[2], S!Prefetch(o.prefetch, o.threads)>>)
             /\ Rule(over => fl[1] = 0, "nothing left running", fl)
        /\ Rule(over => o.late = 0, "nothing runs later", o.late)

(* ---------------------------------------------------------------- frames - *)
Iter(o) ==
    \A n \in {o.len} : \A bad \in {S!FirstBad(SetOf(o.fail), o.len)} :
    \A k \in {IF o.take < 0 THEN bad ELSE MinOf(o.take, bad)} :
    \A failed \in {bad < n /\ (o.take < 0 \/ o.take > bad)} :
        /\ Rule(o.got = Upto(k), "every frame once in ascending order", Upto(k))
        /\ Rule(o.err = IF failed THEN Planned(bad) ELSE None, "error", <<failed, bad>>)
        /\ Rule(o.seen, "open while in use, closed after only when asked for", o.close)
        /\ Rule(o.closed, "closed only when asked for", o.close)
        /\ IF o.take = 0 THEN TRUE ELSE \A c \in {k + (IF failed THEN 1 ELSE 0)} : Asked(o, o.log, c, c, n, o.over)
        /\ Rule(\A i \in 1..Len(o.again) : o.again[i] = (IF o.again[i][1] \in SetOf(o.fail) THEN <<o.again[i][1], 0 - 1, Planned(o.again[i][1])>>
                                                         ELSE <<o.again[i][1], o.again[i][1], None>>), "the clip still works", o.again)

(* ---------------------------------------------------------------- output - *)
Video(o) == o.o.kind = "video"
Vo(o) == [hdr |-> "", start |-> <<>>, endp |-> <<>>, alpha |-> FALSE] @@ o.o
(* pieces: plane, seed, width, size, bytes per sample *)
PlanesOf(fmt, w, h, seed) ==
    [i \in 1..fmt.planes |-> LET pw == IF i = 1 THEN w ELSE w \div (2 ^ fmt.sw)  ph == IF i = 1 THEN h ELSE h \div (2 ^ fmt.sh)
                             IN  <<i - 1, seed, pw, pw * ph * fmt.bps, fmt.bps>>]
VidPieces(o) ==
    PlanesOf(o.o.fmt, o.o.w, o.o.h, o.o.seed)
    \o (IF o.alpha = <<>> THEN <<>> ELSE PlanesOf(o.alpha[1].fmt, o.alpha[1].w, o.alpha[1].h, o.alpha[1].seed))
Tag(o) == IF Video(o) /\ o.hdr = "y4m" THEN V!FrameTag ELSE <<>>
SumTo(ps, k) == FoldLeft(LAMBDA a, i : a + ps[i][4], 0, [i \in 1..k |-> i])
Ends(ps) == [i \in 1..Len(ps) |-> SumTo(ps, i)]

NFrames(o) == IF Video(o) THEN o.o.len ELSE (o.o.len + 3071) \div 3072
(* why nothing can be written at all *)
Refused(o) ==
    IF Video(o) THEN
        IF o.hdr # "y4m" THEN "" ELSE IF o.o.fmt.cf = 2 THEN "ValueError" ELSE IF ~V!HasY4m(o.o.fmt, FALSE) THEN "NotImplementedError" ELSE ""
    ELSE IF o.hdr = "both" THEN "ValueError" ELSE ""
Pre(o) == IF o.hdr = "" THEN 0 ELSE 1
(* number of write calls for a frame, and of those before the one for alpha *)
PerFrame(o) == IF Video(o) THEN (IF o.hdr = "y4m" THEN 1 ELSE 0) + Len(VidPieces(o)) ELSE 1
BeforeAlpha(o) == Pre(o) + 1 + o.o.fmt.planes
(* what stops the output, after how many write calls *)
Stop(o) ==
    LET n == NFrames(o)  bad == S!FirstBad(SetOf(o.fail), n)  pf == PerFrame(o)  pre == Pre(o)
        own == CASE Video(o) /\ o.alpha # <<>> /\ o.hdr = "y4m" /\ bad > 0 -> <<BeforeAlpha(o), <<"ValueError", "">>>>
                 [] o.prog = "boom" /\ bad >= 2 /\ n >= 2 -> <<pre + 2 * pf, <<"Boom", "">>>>
                 [] bad < n -> <<pre + bad * pf, Planned(bad)>>
                 [] OTHER -> <<pre + n * pf, None>>
    IN  IF o.limit < own[1] THEN <<o.limit, <<"Boom", "">>>> ELSE own

(* video bytes *)
VidFrame(o, ps) == Len(Tag(o)) + SumTo(ps, Len(ps))
VidSize(o, ps, w) ==      \* bytes of the first w write calls, without the header
    LET c == w - Pre(o)  tags == IF o.hdr = "y4m" THEN 1 ELSE 0  per == tags + Len(ps) IN
    IF c <= 0 THEN 0
    ELSE (c \div per) * VidFrame(o, ps)
         + (LET r == c % per IN IF r = 0 THEN 0 ELSE IF tags = 1 THEN 6 + SumTo(ps, r - 1) ELSE SumTo(ps, r))
VidByte(o, ps, ends, fs, q) ==
    LET k == q \div fs  r == q % fs  t == Len(Tag(o)) IN
    IF r < t THEN Tag(o)[r + 1]
    ELSE LET x == r - t  i == CHOOSE j \in 1..Len(ps) : x < ends[j] /\ (j = 1 \/ x >= ends[j - 1])
             s == x - (IF i = 1 THEN 0 ELSE ends[i - 1])  bps == ps[i][5]
         IN  V!Byte(k, ps[i][1], (s \div bps) % ps[i][3], s \div (bps * ps[i][3]), s % bps, ps[i][2])

Out(o) ==
    IF Refused(o) # ""
    THEN /\ Rule(o.err[1] = Refused(o), "refused", Refused(o))
         /\ Rule(o.writes = 0 /\ o.size = 0 /\ o.head = "" /\ o.log = <<>> /\ o.flushed = 0, "nothing written", 0)
         /\ Rule(o.progress \in {<<>>, <<<<0, NFrames(o)>>>>}, "progress", <<>>)
    ELSE
    \A st \in {Stop(o)} : \A n \in {NFrames(o)} : \A bad \in {S!FirstBad(SetOf(o.fail), n)} : \A v \in {TLCEval(Vo(o))} :
    \A done \in {IF st[1] <= Pre(o) THEN 0 ELSE (st[1] - Pre(o)) \div PerFrame(o)} :
        /\ Rule(o.err = st[2], "error", st)
        /\ Rule(o.writes = st[1] + (IF o.err[1] = "Boom" /\ o.limit = st[1] /\ o.writes > st[1] THEN 1 ELSE 0), "number of writes", st)
        /\ Rule(o.flushed = (IF o.flush /\ st[2] = None THEN 1 ELSE 0), "flushed", st)
        /\ Rule(o.prog = "" \/ o.progress = <<<<0, n>>>> \o [i \in 1..done |-> <<i, n>>], "progress", <<done, n>>)
        /\ IF Pre(o) = 1 /\ o.limit = 0 THEN Rule(o.log = <<>>, "nothing asked for", 0) ELSE Asked(o, o.log, done, MinOf(n, done + 1), n, TRUE)
        /\ IF Video(o)
           THEN \A ps \in {TLCEval(VidPieces(o))} : \A ends \in {TLCEval(Ends(VidPieces(o)))} : \A fs \in {VidFrame(o, ps)} :
                /\ Rule(o.hdr = "y4m" => o.head = (IF o.limit = 0 THEN "" ELSE V!Y4mHeader(v)), "y4m header", V!Y4mHeader(v))
                /\ Rule(o.size = VidSize(o, ps, st[1]), "size", VidSize(o, ps, st[1]))
                /\ Rule(\A i \in 1..Len(o.at) : o.bytes[i] = VidByte(o, ps, ends, fs, o.at[i]), "bytes",
                        LET b == CHOOSE i \in 1..Len(o.at) : o.bytes[i] # VidByte(o, ps, ends, fs, o.at[i]) IN <<o.at[b], o.bytes[b], VidByte(o, ps, ends, fs, o.at[b])>>)
           ELSE \A hd \in {TLCEval(CASE o.hdr = "wav" -> V!WavHeader(v) [] o.hdr = "w64" -> V!W64Header(v) [] OTHER -> <<>>)} :
                \A hl \in {IF st[1] = 0 THEN 0 ELSE Len(hd)} :
                \A want \in {IF done = n THEN hl + o.o.len * V!Block(v.fmt) ELSE hl + done * 3072 * V!Block(v.fmt)} :
                /\ Rule(o.size = want, "size", want)
                /\ Rule(\A i \in 1..Len(o.at) : o.bytes[i] = (IF o.at[i] < hl THEN hd[o.at[i] + 1] ELSE V!AudioByte(v, o.at[i] - hl)), "bytes",
                        LET b == CHOOSE i \in 1..Len(o.at) : o.bytes[i] # (IF o.at[i] < hl THEN hd[o.at[i] + 1] ELSE V!AudioByte(v, o.at[i] - hl)) IN <<o.at[b], o.bytes[b]>>)

(* ------------------------------------------------------------- get_frame - *)
Get(o) ==
    \A i \in 1..Len(o.res) : \A r \in {o.res[i]} :
        IF r[1] \notin 0..o.len - 1
        THEN Rule(r[3] = 0 - 1 /\ r[4][1] \in {"ValueError", "Error", "IndexError"}, "no such frame", r)
        ELSE IF r[1] \in SetOf(o.fail) THEN Rule(r[3] = 0 - 1 /\ r[4] = Planned(r[1]), "the filter's error", r)
        ELSE Rule(r[3] = r[1] /\ r[4] = None, "the frame asked for", r)

(* --------------------------------------------------- index, slice, +, *  - *)
Make(o, want) ==
    /\ IF want[1] = "err"
       THEN Rule(o.res[1] = "err" /\ (o.res[2] = want[2] \/ want[2] = "any"), "refused", want)
       ELSE Rule(o.res = <<"ok", want[2]>> /\ o.num = Len(want[2]), "frames selected", want)
    /\ clips' = IF o.new = 0 THEN clips ELSE (o.new :> [kind |-> clips[o.h].kind, q |-> o.res[2]]) @@ clips
Joined(a, b) == IF a.kind # b.kind THEN S!Err("any") ELSE S!Ok(a.q \o b.q)
Clip(o) ==
    \A c \in {clips[o.h]} :
        CASE o.e = "index" -> Make(o, IF o.i = <<>> THEN S!Err("TypeError") ELSE S!Index(c.q, o.i[1]))
          [] o.e = "slice" -> Make(o, S!Sliced(c.q, o.s, c.kind = "audio"))
          [] o.e = "mul" -> Make(o, IF o.k = <<>> THEN S!Err("TypeError") ELSE S!Times(c.q, o.k[1]))
          [] o.e = "add" -> Make(o, IF o.g = 0 THEN S!Err("any") ELSE Joined(c, clips[o.g]))
          [] o.e = "len" -> Rule(o.n = Len(c.q), "length", Len(c.q)) /\ UNCHANGED clips
          [] o.e = "each" -> Rule(o.q = c.q /\ o.ones, "iteration", c.q) /\ UNCHANGED clips

Do(o) ==
    CASE o.e \in {"start", "reset"} -> clips' = <<>>
      [] o.e = "iter" -> Iter(o) /\ UNCHANGED clips
      [] o.e = "output" -> Out(o) /\ UNCHANGED clips
      [] o.e = "get" -> Get(o) /\ UNCHANGED clips
      [] o.e = "src" -> clips' = (o.h :> [kind |-> o.kind, q |-> o.q]) @@ clips
      [] OTHER -> Clip(o)
Init == l = 1 /\ clips = <<>>
Next == l <= Len(T) /\ (\A o \in {T[l]} : Do(o)) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, clips>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
