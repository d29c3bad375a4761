------------------------------ MODULE Geometry ------------------------------
(* C15: the filters which only move pixels.
   A format is <<colour family (0 none, 1 gray, 2 RGB, 3 YUV), sample type, bits, horizontal, vertical subsampling (log2)>>.
   A clip is [f, w, h (0, 0: variable), len, num, den]; a frame is [f, w, h, pl, pr] with
   each plane a sequence of pixels row by row and pr the properties.  Optional arguments
   are sequences of at most one value. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
IMAX == 2147483647
Opt(x, d) == IF x = <<>> THEN d ELSE x[1]
Pow2(n) == 2 ^ n
Planes(f) == IF f[1] \in {2, 3} THEN 3 ELSE IF f[1] = 1 THEN 1 ELSE 0
Sub(n, s, p) == IF p = 1 THEN n ELSE n \div Pow2(s)
PW(f, w, p) == Sub(w, f[4], p)
PH(f, h, p) == Sub(h, f[5], p)
ConstFmt(c) == c.f[1] # 0
ConstSize(c) == c.w > 0
Const(c) == ConstFmt(c) /\ ConstSize(c)
MkPlane(w, h, F(_, _)) == [k \in 1..(w * h) |-> F((k - 1) % w, (k - 1) \div w)]
Px(fr, p, x, y) == fr.pl[p][(y * PW(fr.f, fr.w, p)) + x + 1]
MkFrame(f, w, h, pr, F(_, _, _)) == [f |-> f, w |-> w, h |-> h, pr |-> pr, pl |-> [p \in 1..Planes(f) |-> LET G(x, y) == F(p, x, y) IN MkPlane(PW(f, w, p), PH(f, h, p), G)]]
Without(m, S) == [k \in DOMAIN m \ S |-> m[k]]
Prop(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
Error == [f |-> <<>>, w |-> 0, h |-> 0, pl |-> <<>>, pr |-> [none |-> 0]]
---------------------------------------------------------------------------
\* durations and frame rates: n/d times m/q, reduced
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN (IF x < 0 THEN -x ELSE x) ELSE Gcd(y, x % y)
Scale(n, d, m, q) == IF d = 0 THEN <<n, d>> ELSE LET g == Gcd(n * m, d * q) IN <<(n * m) \div g, (d * q) \div g>>
\* ---- crop
OffStep(v, s) == v % Pow2(s) # 0
CropBad(f, w, h, x, y, cw, ch) == x < 0 \/ y < 0 \/ cw < 1 \/ ch < 1 \/ (w > 0 /\ (w - x < cw \/ h - y < ch))
                                  \/ (f[1] # 0 /\ (OffStep(x, f[4]) \/ OffStep(cw, f[4]) \/ OffStep(y, f[5]) \/ OffStep(ch, f[5])))
AbsX(a) == Opt(a.left, Opt(a.x, 0))
AbsY(a) == Opt(a.top, Opt(a.y, 0))
L(a) == Opt(a.left, 0)
R(a) == Opt(a.right, 0)
To(a) == Opt(a.top, 0)
B(a) == Opt(a.bottom, 0)
\* the other field comes first when an odd number of rows is added or removed above
FlipField(pr, y) == IF y % 2 = 1 /\ Prop(pr, "_FieldBased", 0) \in {1, 2} THEN [pr EXCEPT !["_FieldBased"] = 3 - @] ELSE pr
CropFrame(fr, x, y, w, h) == LET F(p, i, j) == Px(fr, p, i + Sub(x, fr.f[4], p), j + Sub(y, fr.f[5], p)) IN MkFrame(fr.f, w, h, FlipField(fr.pr, y), F)
\* ---- borders.  A colour q stands for q/8; 999999 for something not finite
F32 == (0 :> 0 @@ 2 :> 1048576000 @@ 4 :> 1056964608 @@ 8 :> 1065353216 @@ 16 :> 1073741824 @@ (-2) :> -1098907648 @@ 560000 :> 1200142336)
F16 == (0 :> 0 @@ 2 :> 13312 @@ 4 :> 14336 @@ 8 :> 15360 @@ 16 :> 16384 @@ (-2) :> 46080)
ColorBad(f, q) == q = 999999 \/ (f[2] = 0 /\ (q < 0 \/ (f[3] < 28 /\ (q + 4) \div 8 >= Pow2(f[3])))) \/ (f[2] = 1 /\ f[3] = 16 /\ q = 560000)
Color(f, q) == IF f[2] = 0 THEN (q + 4) \div 8 ELSE IF f[3] = 16 THEN F16[q] ELSE F32[q]
Black(f, p) == IF f[1] = 3 /\ f[2] = 0 /\ p > 1 THEN (IF f[3] = 32 THEN -IMAX - 1 ELSE Pow2(f[3] - 1)) ELSE 0
Border(f, a, p) == IF a.color = <<>> THEN Black(f, p) ELSE Color(f, a.color[p])
NoBorder(a) == L(a) = 0 /\ R(a) = 0 /\ To(a) = 0 /\ B(a) = 0
TooBig(n, x, y) == x > IMAX - n \/ y > IMAX - n - x
BorderFrame(fr, a, col(_)) == LET F(p, i, j) == LET x == i - Sub(L(a), fr.f[4], p) y == j - Sub(To(a), fr.f[5], p)
                                                  IN IF x >= 0 /\ x < PW(fr.f, fr.w, p) /\ y >= 0 /\ y < PH(fr.f, fr.h, p) THEN Px(fr, p, x, y) ELSE col(p)
                              IN MkFrame(fr.f, fr.w + L(a) + R(a), fr.h + To(a) + B(a), FlipField(fr.pr, To(a)), F)
\* ---- turning
FlipV(fr) == LET F(p, x, y) == Px(fr, p, x, PH(fr.f, fr.h, p) - 1 - y) IN MkFrame(fr.f, fr.w, fr.h, fr.pr, F)
FlipH(fr) == LET F(p, x, y) == Px(fr, p, PW(fr.f, fr.w, p) - 1 - x, y) IN MkFrame(fr.f, fr.w, fr.h, fr.pr, F)
Turned180(fr) == LET F(p, x, y) == Px(fr, p, PW(fr.f, fr.w, p) - 1 - x, PH(fr.f, fr.h, p) - 1 - y) IN MkFrame(fr.f, fr.w, fr.h, fr.pr, F)
Swapped(f) == <<f[1], f[2], f[3], f[5], f[4]>>
Transposed(fr) == LET F(p, x, y) == Px(fr, p, y, x) IN MkFrame(Swapped(fr.f), fr.h, fr.w, fr.pr, F)
Turned90(fr) == LET F(p, x, y) == Px(fr, p, y, PH(fr.f, fr.h, p) - 1 - x) IN MkFrame(Swapped(fr.f), fr.h, fr.w, fr.pr, F)
Turned270(fr) == LET F(p, x, y) == Px(fr, p, PW(fr.f, fr.w, p) - 1 - y, x) IN MkFrame(Swapped(fr.f), fr.h, fr.w, fr.pr, F)
\* ---- stacking
Total(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
StackedV(fs) == [f |-> fs[1].f, w |-> fs[1].w, h |-> Total([i \in 1..Len(fs) |-> fs[i].h]), pr |-> fs[1].pr, pl |-> [p \in 1..Planes(fs[1].f) |-> FlattenSeq([i \in 1..Len(fs) |-> fs[i].pl[p]])]]
Row(fr, p, y) == LET w == PW(fr.f, fr.w, p) IN SubSeq(fr.pl[p], (y * w) + 1, (y + 1) * w)
StackedH(fs) == [f |-> fs[1].f, w |-> Total([i \in 1..Len(fs) |-> fs[i].w]), h |-> fs[1].h, pr |-> fs[1].pr,
                 pl |-> [p \in 1..Planes(fs[1].f) |-> FlattenSeq([y \in 1..PH(fs[1].f, fs[1].h, p) |-> FlattenSeq([i \in 1..Len(fs) |-> Row(fs[i], p, y - 1)])])]]
\* ---- planes
Family(v) == CASE v \in {1, 1000000} -> 1 [] v \in {2, 2000000} -> 2 [] v \in {3, 3000000, 4000000} -> 3 [] OTHER -> 0
PlaneNo(a, i) == IF i <= Len(a.planes) THEN a.planes[i] + 1 ELSE 1
ClipNo(nclips, i) == IF i <= nclips THEN i ELSE nclips
Ratio(m, n) == IF \E s \in 0..4 : m = n * Pow2(s) THEN CHOOSE s \in 0..4 : m = n * Pow2(s) ELSE -1
\* the clips of a call are the first a.nclips of its inputs; prop_src follows when given
Src(ins, a, i) == ins[ClipNo(a.nclips, i)]
ShRatio(ins, a) == LET c(i) == Src(ins, a, i) q(i) == PlaneNo(a, i) IN
  <<Ratio(PW(c(1).f, c(1).w, q(1)), PW(c(2).f, c(2).w, q(2))), Ratio(PH(c(1).f, c(1).h, q(1)), PH(c(2).f, c(2).h, q(2)))>>
ShBad(ins, a) == LET cf == Family(a.cf) np == IF cf = 1 THEN 1 ELSE 3 c(i) == Src(ins, a, i) q(i) == PlaneNo(a, i) IN
  \/ cf = 0 \/ a.nclips > np \/ a.nclips = 0 \/ Len(a.planes) > np \/ Len(a.planes) = 0
  \/ \E i \in 1..a.nclips : ~Const(ins[i])
  \/ \E i \in 1..np : ~(q(i) \in 1..Planes(c(i).f))
  \/ cf # 1 /\ (\/ PW(c(2).f, c(2).w, q(2)) # PW(c(3).f, c(3).w, q(3)) \/ PH(c(2).f, c(2).h, q(2)) # PH(c(3).f, c(3).h, q(3))
                \/ -1 \in {ShRatio(ins, a)[1], ShRatio(ins, a)[2]}
                \/ cf = 2 /\ ShRatio(ins, a) # <<0, 0>>
                \/ \E i \in 2..3 : <<c(i).f[2], c(i).f[3]>> # <<c(1).f[2], c(1).f[3]>>)
ShFmt(ins, a) == LET f == ins[1].f IN IF Family(a.cf) = 1 THEN <<1, f[2], f[3], 0, 0>> ELSE <<Family(a.cf), f[2], f[3], ShRatio(ins, a)[1], ShRatio(ins, a)[2]>>
PropSrc(a) == a.nclips + (IF a.prop = 1 THEN 1 ELSE 1 - a.nclips)
ShFrame(fs, a, fmt) == LET c(i) == Src(fs, a, i) q(i) == PlaneNo(a, i) IN
  [f |-> fmt, w |-> PW(c(1).f, c(1).w, q(1)), h |-> PH(c(1).f, c(1).h, q(1)), pr |-> fs[PropSrc(a)].pr, pl |-> [i \in 1..Planes(fmt) |-> c(i).pl[q(i)]]]
\* ---- fields
FieldOrder(fr, a) == LET v == Prop(fr.pr, "_FieldBased", 0) IN IF v = 1 THEN 0 ELSE IF v = 2 THEN 1 ELSE Opt(a.tff, -1)
HalfDur(pr) == IF {"_DurationNum", "_DurationDen"} \subseteq DOMAIN pr THEN LET d == Scale(pr["_DurationNum"], pr["_DurationDen"], 1, 2) IN [pr EXCEPT !["_DurationNum"] = d[1], !["_DurationDen"] = d[2]] ELSE pr
\* output frame n: the top field (1) when n and the order agree so
Separated(fr, a, n) == LET o == FieldOrder(fr, a) top == IF n % 2 = 0 THEN o ELSE 1 - o F(p, x, y) == Px(fr, p, x, 2 * y + 1 - top)
                           pr == ("_Field" :> top) @@ Without(fr.pr, {"_FieldBased"})
                       IN IF o = -1 THEN Error ELSE MkFrame(fr.f, fr.w, fr.h \div 2, IF Opt(a.md, 1) = 1 THEN HalfDur(pr) ELSE pr, F)
FirstIsTop(f1, f2, a, n) == LET x == Prop(f1.pr, "_Field", -1) y == Prop(f2.pr, "_Field", -1) IN
  IF x = 0 /\ y = 1 THEN 0 ELSE IF x = 1 /\ y = 0 THEN 1 ELSE IF a.tff = <<>> THEN -1 ELSE IF n % 2 = 0 THEN a.tff[1] ELSE 1 - a.tff[1]
Woven(f1, f2, a, n) == LET t == FirstIsTop(f1, f2, a, n) F(p, x, y) == Px(IF (y % 2 = 0) = (t = 1) THEN f1 ELSE f2, p, x, y \div 2)
                       IN IF t = -1 THEN Error ELSE MkFrame(f1.f, f1.w, f1.h * 2, ("_FieldBased" :> 1 + t) @@ Without(f1.pr, {"_Field", "_FieldBased"}), F)
---------------------------------------------------------------------------
Rejects(f, ins, a) == LET c == ins[1] IN
  CASE f = "CropAbs" -> CropBad(c.f, c.w, c.h, AbsX(a), AbsY(a), a.width, a.height)
    [] f = "Crop" -> ~Const(c) \/ (~NoBorder(a) /\ (L(a) < 0 \/ R(a) < 0 \/ To(a) < 0 \/ B(a) < 0 \/ L(a) >= c.w \/ To(a) >= c.h \/ CropBad(c.f, c.w, c.h, L(a), To(a), c.w - L(a) - R(a), c.h - To(a) - B(a))))
    [] f = "AddBorders" -> ~NoBorder(a) /\ (L(a) < 0 \/ R(a) < 0 \/ To(a) < 0 \/ B(a) < 0 \/ ~ConstFmt(c)
         \/ OffStep(L(a), c.f[4]) \/ OffStep(R(a), c.f[4]) \/ OffStep(To(a), c.f[5]) \/ OffStep(B(a), c.f[5]) \/ TooBig(c.w, L(a), R(a)) \/ TooBig(c.h, To(a), B(a))
         \/ (a.color # <<>> /\ (Len(a.color) # Planes(c.f) \/ \E i \in 1..Len(a.color) : ColorBad(c.f, a.color[i]))))
    [] f \in {"FlipVertical", "FlipHorizontal", "Turn180"} -> FALSE
    [] f \in {"Transpose", "Turn90", "Turn270", "DoubleWeave"} -> ~Const(c)
    [] f = "StackVertical" -> Len(ins) = 0 \/ (Len(ins) > 1 /\ \E i \in 1..Len(ins) : ~Const(ins[i]) \/ ins[i].f # c.f \/ ins[i].w # c.w)
    [] f = "StackHorizontal" -> Len(ins) = 0 \/ (Len(ins) > 1 /\ \E i \in 1..Len(ins) : ~Const(ins[i]) \/ ins[i].f # c.f \/ ins[i].h # c.h)
    [] f = "ShufflePlanes" -> ShBad(ins, a)
    [] f = "SplitPlanes" -> ~ConstFmt(c) \/ (Planes(c.f) > 1 /\ ~ConstSize(c))
    [] f = "SeparateFields" -> ~Const(c) \/ c.h % Pow2(c.f[5] + 1) # 0 \/ c.len > IMAX \div 2
OutInfo(f, ins, a) ==
  LET c == ins[1] size(w, h) == [c EXCEPT !.w = w, !.h = h] longest == Max({ins[i].len : i \in 1..Len(ins)}) IN
  CASE f = "CropAbs" -> size(a.width, a.height)
    [] f = "Crop" -> size(c.w - L(a) - R(a), c.h - To(a) - B(a))
    [] f = "AddBorders" -> IF c.w = 0 THEN c ELSE size(c.w + L(a) + R(a), c.h + To(a) + B(a))
    [] f \in {"FlipVertical", "FlipHorizontal", "Turn180"} -> c
    [] f \in {"Transpose", "Turn90", "Turn270"} -> [size(c.h, c.w) EXCEPT !.f = Swapped(c.f)]
    [] f = "StackVertical" -> [size(c.w, Total([i \in 1..Len(ins) |-> ins[i].h])) EXCEPT !.len = longest]
    [] f = "StackHorizontal" -> [size(Total([i \in 1..Len(ins) |-> ins[i].w]), c.h) EXCEPT !.len = longest]
    [] f = "ShufflePlanes" -> [size(PW(c.f, c.w, PlaneNo(a, 1)), PH(c.f, c.h, PlaneNo(a, 1))) EXCEPT !.f = ShFmt(ins, a), !.len = IF Family(a.cf) = 1 THEN c.len ELSE Max({ins[i].len : i \in 1..a.nclips})]
    [] f = "SplitPlanes" -> IF Planes(c.f) = 1 THEN c ELSE [size(PW(c.f, c.w, a.k), PH(c.f, c.h, a.k)) EXCEPT !.f = <<1, c.f[2], c.f[3], 0, 0>>]
    [] f = "SeparateFields" -> LET s == IF Opt(a.md, 1) = 1 THEN Scale(c.num, c.den, 2, 1) ELSE <<c.num, c.den>> IN [size(c.w, c.h \div 2) EXCEPT !.len = c.len * 2, !.num = s[1], !.den = s[2]]
    [] f = "DoubleWeave" -> size(c.w, c.h * 2)
\* output frame n is made of frame Need(..)[j] of each input j (of the only one, for DoubleWeave)
Clamp(n, c) == IF n < c.len THEN n ELSE c.len - 1
Need(f, ins, n) == CASE f = "SeparateFields" -> <<n \div 2>>
                     [] f = "DoubleWeave" -> <<n, Clamp(n + 1, ins[1])>>
                     [] OTHER -> [j \in 1..Len(ins) |-> Clamp(n, ins[j])]
FrameOut(f, fs, a, out, n) == LET fr == fs[1] IN
  CASE f = "CropAbs" -> IF CropBad(fr.f, fr.w, fr.h, AbsX(a), AbsY(a), a.width, a.height) THEN Error ELSE CropFrame(fr, AbsX(a), AbsY(a), a.width, a.height)
    [] f = "Crop" -> IF NoBorder(a) THEN fr ELSE CropFrame(fr, L(a), To(a), out.w, out.h)
    [] f = "AddBorders" -> IF NoBorder(a) THEN fr ELSE IF TooBig(fr.w, L(a), R(a)) \/ TooBig(fr.h, To(a), B(a)) THEN Error ELSE LET col(p) == Border(fr.f, a, p) IN BorderFrame(fr, a, col)
    [] f = "FlipVertical" -> FlipV(fr) [] f = "FlipHorizontal" -> FlipH(fr) [] f = "Turn180" -> Turned180(fr)
    [] f = "Transpose" -> Transposed(fr) [] f = "Turn90" -> Turned90(fr) [] f = "Turn270" -> Turned270(fr)
    [] f = "StackVertical" -> IF Len(fs) = 1 THEN fr ELSE StackedV(fs) [] f = "StackHorizontal" -> IF Len(fs) = 1 THEN fr ELSE StackedH(fs)
    [] f = "ShufflePlanes" -> ShFrame(fs, a, out.f)
    [] f = "SplitPlanes" -> IF Planes(fr.f) = 1 THEN fr ELSE [f |-> out.f, w |-> PW(fr.f, fr.w, a.k), h |-> PH(fr.f, fr.h, a.k), pr |-> fr.pr, pl |-> <<fr.pl[a.k]>>]
    [] f = "SeparateFields" -> Separated(fr, a, n)
    [] f = "DoubleWeave" -> Woven(fr, fs[2], a, n)
=============================================================================
