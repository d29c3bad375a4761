------------------------------- MODULE Vspipe -------------------------------
(* vspipe writes the requested range of an output: what the stream is made   *)
(* of, and how the window of requests, frames completing in any order and    *)
(* failures end up in it.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------------------------------------- the range - *)
From(o) == IF o.start = <<>> THEN 0 ELSE o.start[1]
Upto(o) == IF o.endp = <<>> THEN o.len - 1 ELSE o.endp[1]
RangeOK(o) == From(o) <= Upto(o) /\ Upto(o) < o.len
Count(o) == Upto(o) - From(o) + 1

(* ---------------------------------------------------------------- y4m ---- *)
Sub(f) == <<f.sw, f.sh>>
Y4mName(f) ==
    IF f.cf = 1 THEN IF f.bits > 8 THEN "mono" \o ToString(f.bits) ELSE "mono"
    ELSE (CASE Sub(f) = <<1, 1>> -> "420" [] Sub(f) = <<1, 0>> -> "422" [] Sub(f) = <<0, 0>> -> "444"
            [] Sub(f) = <<2, 2>> -> "410" [] Sub(f) = <<2, 0>> -> "411" [] Sub(f) = <<0, 1>> -> "440")
         \o (IF f.st = 1 THEN IF f.bits = 16 THEN "ph" ELSE "ps" ELSE IF f.bits > 8 THEN "p" \o ToString(f.bits) ELSE "")
HasY4m(f, alpha) == f.cf # 2 /\ ~alpha /\ (f.cf = 1 \/ Sub(f) \in {<<1, 1>>, <<1, 0>>, <<0, 0>>, <<2, 2>>, <<2, 0>>, <<0, 1>>})
Y4mHeader(o) ==
    "YUV4MPEG2 C" \o Y4mName(o.fmt) \o " W" \o ToString(o.w) \o " H" \o ToString(o.h) \o " F" \o ToString(o.fps[1]) \o ":" \o ToString(o.fps[2])
    \o " Ip A0:0 XLENGTH=" \o ToString(Count(o)) \o "\n"
FrameTag == <<70, 82, 65, 77, 69, 10>>

(* ------------------------------------------------------------ wav, w64 --- *)
RECURSIVE Le(_, _)
Le(v, k) == IF k = 0 THEN <<>> ELSE <<v % 256>> \o Le(v \div 256, k - 1)
OutBytes(f) == (f.bits + 7) \div 8
Block(f) == f.ch * OutBytes(f)
Guid(f) == <<IF f.st = 1 THEN 3 ELSE 1, 0, 0, 0, 0, 0, 16, 0, 128, 0, 0, 170, 0, 56, 155, 113>>
WaveFmt(o) ==       \* WAVEFORMATEXTENSIBLE, 40 bytes
    LET f == o.fmt IN
    <<254, 255>> \o Le(f.ch, 2) \o Le(o.rate, 4) \o Le(o.rate * Block(f), 4) \o Le(Block(f), 2) \o Le(8 * OutBytes(f), 2)
    \o Le(22, 2) \o Le(f.bits, 2) \o Le(f.mask, 4) \o Guid(f)
RIFF == <<82, 73, 70, 70>>  WAVE == <<87, 65, 86, 69>>  FMT == <<102, 109, 116, 32>>  DATA == <<100, 97, 116, 97>>
WavHeader(o) ==
    LET d == Count(o) * Block(o.fmt) IN
    RIFF \o Le(60 + d, 4) \o WAVE \o FMT \o Le(40, 4) \o WaveFmt(o) \o DATA \o Le(d, 4)
U(a) == a \o <<243, 172, 211, 17, 140, 209, 0, 192, 79, 142, 219, 138>>
W64Header(o) ==
    LET d == Count(o) * Block(o.fmt) IN
    <<114, 105, 102, 102, 46, 145, 207, 17, 165, 214, 40, 219, 4, 193, 0, 0>> \o Le(128 + d, 8)
    \o U(<<119, 97, 118, 101>>) \o U(<<102, 109, 116, 32>>) \o Le(64, 8) \o WaveFmt(o) \o U(<<100, 97, 116, 97>>) \o Le(24 + d, 8)

HeaderFits(o) ==
    CASE o.hdr = "" -> TRUE
      [] o.hdr = "y4m" -> o.kind = "video" /\ HasY4m(o.fmt, o.alpha)
      [] OTHER -> o.kind = "audio"

(* --------------------------------------------------------- video frames -- *)
PW(o, p) == IF p = 0 THEN o.w ELSE o.w \div (2 ^ o.fmt.sw)
PH(o, p) == IF p = 0 THEN o.h ELSE o.h \div (2 ^ o.fmt.sh)
PlaneOrder(f) == IF f.cf = 2 THEN <<1, 2, 0>> ELSE IF f.planes = 1 THEN <<0>> ELSE <<0, 1, 2>>
PlaneSize(o, p) == PW(o, p) * PH(o, p) * o.fmt.bps
Byte(n, p, x, y, b, seed) == (n * 37 + p * 11 + x * 3 + y * 5 + b * 71 + seed) % 256
(* the pieces a frame is written as: plane number, seed, width, size *)
Pieces(o) ==
    [i \in 1..Len(PlaneOrder(o.fmt)) |-> LET p == PlaneOrder(o.fmt)[i] IN <<p, o.seed, PW(o, p), PlaneSize(o, p)>>]
    \o (IF o.alpha THEN <<<<0, o.aseed, o.w, o.w * o.h * o.fmt.bps>>>> ELSE <<>>)
RECURSIVE SumTo(_, _)
SumTo(ps, k) == IF k = 0 THEN 0 ELSE SumTo(ps, k - 1) + ps[k][4]
TagLen(o) == IF o.hdr = "y4m" THEN 6 ELSE 0
FrameSize(o) == TagLen(o) + SumTo(Pieces(o), Len(Pieces(o)))
(* byte q (from 0) of the k-th written frame, ends = where the pieces end *)
FrameByte(o, ps, ends, k, q) ==
    IF q < TagLen(o) THEN FrameTag[q + 1]
    ELSE LET r == q - TagLen(o)
             i == CHOOSE j \in 1..Len(ps) : r < ends[j] /\ (j = 1 \/ r >= ends[j - 1])
             s == r - (IF i = 1 THEN 0 ELSE ends[i - 1])
             bps == o.fmt.bps
         IN  Byte(From(o) + k, ps[i][1], (s \div bps) % ps[i][3], s \div (bps * ps[i][3]), s % bps, ps[i][2])

(* --------------------------------------------------------------- audio --- *)
SampleByte(o, s, c, b) == (s * 7 + (s \div 256) * 13 + c * 29 + b * 71 + o.seed) % 256
AudioByte(o, q) ==
    LET f == o.fmt  ob == OutBytes(f)  s == From(o) + q \div Block(f)  r == q % Block(f)
    IN  SampleByte(o, s, r \div ob, (r % ob) + f.bps - ob)

(* ---------------------------------------------------- timecodes and JSON - *)
GoodDur(d) == d # <<>> /\ d[1] > 0 /\ d[2] > 0
Dur(o, n) == IF o.dur = <<>> THEN <<>> ELSE o.dur[(n % Len(o.dur)) + 1]
Units(d) == d[1] * (240000 \div d[2])          \* in 1/240000 s
Printable(c) == \A i \in 1..Len(c) : c[i] >= 32 /\ c[i] <= 126
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Binary(n) == <<91, 98, 105, 110, 97, 114, 121, 32, 100, 97, 116, 97, 32, 115, 105, 122, 101, 58, 32>> \o Digits(n) \o <<93>>
JsonOne(v) ==
    CASE v[1] = "d1" -> <<"s", "", v[3]>>
      [] v[1] = "d0" -> <<"s", "", Binary(Len(v[3]))>>
      [] v[1] = "d-1" -> <<"s", "", IF Len(v[3]) < 200 /\ Printable(v[3]) THEN v[3] ELSE Binary(Len(v[3]))>>
      [] OTHER -> v
JsonValue(l) ==
    IF Len(l) = 0 THEN <<"z", "", <<>>>>
    ELSE IF Len(l) = 1 THEN JsonOne(l[1])
    ELSE <<"l", "", [i \in 1..Len(l) |-> JsonOne(l[i])]>>
Opaque(l) == \E i \in 1..Len(l) : l[i][1] = "o"     \* frames, clips and functions have no value to print

=============================================================================
