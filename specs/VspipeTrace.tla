---------------------------- MODULE VspipeTrace -----------------------------
(* Every run of the real vspipe against the stream Vspipe defines.           *)
EXTENDS Vspipe, Json, IOUtils, TLCExt, SequencesExt
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE l
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE

Video(o) == o.kind = "video"
RangeFrames(o) == IF Video(o) THEN From(o)..Upto(o) ELSE (From(o) \div 3072)..(Upto(o) \div 3072)
Good(o) == o.bad = "" /\ RangeOK(o) /\ HeaderFits(o)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Failing(o) == (SeqSet(o.fail) \union SeqSet(o.afail)) \cap RangeFrames(o)
BadDur(o) == IF Video(o) /\ o.tc # "" THEN {n \in RangeFrames(o) : ~GoodDur(Dur(o, n))} ELSE {}
NoRoom(o) == o.out = "full" \/ (Video(o) /\ (o.tc = "full" \/ o.json = "full"))
Success(o) == Good(o) /\ Failing(o) = {} /\ BadDur(o) = {} /\ ~NoRoom(o)

(* the output frames that may have been written before the first failing one *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Intact(o) ==
    IF Failing(o) = {} THEN IF Video(o) THEN Count(o) ELSE (Count(o) + 3071) \div 3072
    ELSE IF Video(o) THEN MinOf(Failing(o)) - From(o)
    ELSE LET bad == {k \in 0..((Count(o) - 1) \div 3072) :
                        \E n \in Failing(o) : \E s \in {From(o) + k * 3072, From(o) + (IF k * 3072 + 3071 < Count(o) THEN k * 3072 + 3071 ELSE Count(o) - 1)} : s \div 3072 = n}
         IN  MinOf(bad)
Written(o) == o.out \in {"file", "stdout"}

Starts(o, id) == SelectSeq(o.log, LAMBDA x : x[1] = "s" /\ x[3] = id)
InFlight(o) ==      \* the largest number of source frames being made at once
    FoldLeft(LAMBDA a, x : IF x[1] = "s" THEN <<a[1] + 1, IF a[1] + 1 > a[2] THEN a[1] + 1 ELSE a[2]>> ELSE <<a[1] - 1, a[2]>>, <<0, 0>>, o.log)[2]

Before(o, i) ==     \* the time of the i-th written frame in 1/240000 s
    FoldLeft(LAMBDA a, n : a + (IF GoodDur(Dur(o, n)) THEN Units(Dur(o, n)) ELSE 0), 0, [j \in 1..i - 1 |-> From(o) + j - 1])
Timecodes(o) == [i \in 1..Len(o.tcs) |-> (Before(o, i) * 50 + 6) \div 12]   \* in microseconds, rounded
Close(a, b) == a - b \in -1..1

JsonFits(o, i) ==
    \A props \in {o.props["n" \o ToString(From(o) + i - 1)]} :
        /\ DOMAIN o.items[i] = DOMAIN props
        /\ \A k \in DOMAIN props : IF k = "none" THEN TRUE ELSE
             LET got == o.items[i][k]  want == JsonValue(props[k]) IN
             Opaque(props[k]) \/ (got[1] = want[1] /\ got[2] = want[2] /\ got[3] = want[3])

VideoRules(o) ==
    \A ps \in {TLCEval(Pieces(o))} : \A ends \in {TLCEval([i \in 1..Len(Pieces(o)) |-> SumTo(Pieces(o), i)])} : \A fs \in {FrameSize(o)} :
        LET k == Len(o.bytes) \div fs IN
        /\ Written(o) =>
             /\ Rule(o.hdr = "y4m" => o.head = Y4mHeader(o) \/ (o.fmt.cf = 1 /\ o.fmt.st = 1), "y4m header", Y4mHeader(o))
             /\ Rule(\A q \in 1..Len(o.bytes) : (q - 1) \div fs < Count(o) /\ o.bytes[q] = FrameByte(o, ps, ends, (q - 1) \div fs, (q - 1) % fs), "bytes",
                     LET bad == {q \in 1..Len(o.bytes) : (q - 1) \div fs >= Count(o) \/ o.bytes[q] # FrameByte(o, ps, ends, (q - 1) \div fs, (q - 1) % fs)}
                         b == MinOf(bad) IN <<b, o.bytes[b], fs>>)
             /\ Rule(~NoRoom(o) => Len(o.bytes) % fs = 0, "whole frames only", fs)
             /\ Rule(k <= Intact(o), "nothing from the failing frame on", Intact(o))
             /\ Rule(Success(o) => k = Count(o) /\ Len(o.bytes) % fs = 0, "all frames written", Count(o))
             /\ Rule(o.tc = "file" /\ BadDur(o) = {} /\ ~NoRoom(o) => Len(o.tcs) = k, "one timecode for each frame", k)
        /\ Rule(o.tc = "file" => o.tchead /\ Len(o.tcs) <= Intact(o), "timecodes", Intact(o))
        /\ Rule(\A t \in {TLCEval(Timecodes(o))} : \A i \in 1..Len(o.tcs) : Close(o.tcs[i], t[i]), "timecode values", Timecodes(o))
        /\ Rule(o.json = "file" => Len(o.items) <= Intact(o) /\ \A i \in 1..Len(o.items) : JsonFits(o, i), "json lines",
                [i \in 1..Len(o.items) |-> IF o.items[i] = <<>> THEN FALSE ELSE JsonFits(o, i)])
        /\ Rule(Success(o) /\ o.json = "file" => o.jok /\ Len(o.items) = Count(o), "json complete", Count(o))
        /\ Rule(Success(o) /\ o.tc = "file" => Len(o.tcs) = Count(o), "timecodes complete", Count(o))
        /\ \A id \in 0..(IF o.alpha THEN 1 ELSE 0) : \A st \in {Starts(o, id)} : \A ns \in {{st[i][2] : i \in 1..Len(st)}} :
             Rule(Cardinality(ns) = Len(st) /\ ns \subseteq RangeFrames(o) /\ (Success(o) => ns = RangeFrames(o)), "each frame asked for once", <<id, st>>)
        /\ Rule(InFlight(o) <= o.req * (IF o.alpha THEN 2 ELSE 1), "requests at once", InFlight(o))

AudioRules(o) ==
    \A hd \in {TLCEval(CASE o.hdr = "wav" -> WavHeader(o) [] o.hdr = "w64" -> W64Header(o) [] OTHER -> <<>>)} :
    \A blk \in {Block(o.fmt)} :
        LET body == Len(o.bytes) - Len(hd)  k == body \div (3072 * blk)  total == Count(o) * blk IN
        /\ Written(o) =>
             /\ Rule(body >= 0 /\ \A q \in 1..Len(hd) : o.bytes[q] = hd[q], "header", hd)
             /\ Rule(body <= total /\ \A q \in 1..body : o.bytes[Len(hd) + q] = AudioByte(o, q - 1), "samples", total)
             /\ Rule(body = total \/ body % (3072 * blk) = 0, "whole frames only", total)
             /\ Rule(IF body = total THEN Failing(o) = {} ELSE k <= Intact(o), "nothing from the failing frame on", Intact(o))
             /\ Rule(Success(o) => body = total, "all samples written", total)
        /\ Rule(\A i \in 1..Len(o.log) : o.log[i][2] \in RangeFrames(o), "only frames of the range", RangeFrames(o))
        /\ Rule(Success(o) => {o.log[i][2] : i \in 1..Len(o.log)} = RangeFrames(o), "all frames of the range", RangeFrames(o))
        /\ Rule(InFlight(o) <= 2 * o.req, "requests at once", InFlight(o))

Check(o) ==
    /\ Rule((o.rc = 0) <=> Success(o), "exit code", <<o.rc, Good(o), NoRoom(o), Failing(o), IF Good(o) THEN BadDur(o) ELSE {}>>)
    /\ Rule(o.rc < 1000, "ended by a signal", o.rc)
    /\ Rule(o.bad = "exit" => o.rc = 3, "exit code of the script", 3)
    /\ Rule(o.stray = 0, "nothing else on stdout", 0)
    /\ IF ~Good(o)
       THEN Rule(o.bytes = <<>> /\ o.head = "" /\ o.log = <<>> /\ o.tcs = <<>> /\ o.items = <<>>, "nothing written", 0)
       ELSE IF Video(o) THEN VideoRules(o) ELSE AudioRules(o)

Init == l = 1
Next == l <= Len(T) /\ (\A o \in {T[l]} : Check(o)) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
