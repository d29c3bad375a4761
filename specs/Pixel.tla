------------------------------- MODULE Pixel -------------------------------
(* C17: the point, neighbourhood and combination filters as functions on samples.

   A clip is [f, w, h, len]; f = <<colour family, sample type, bits, subsampling w, subsampling h>>.
   A frame is [pl, pr]: planes as sequences of samples in reading order, and integer properties.
   Arguments: an absent optional argument is <<>>, a present one <<value>>; float arguments that take part in exact
   arithmetic are given as integers in quarters (names ending in 4).
   Where the documentation rounds a real number, Near says which integers are right: the nearest ones, with 2 % of a
   unit of room for the single precision the filters compute with.                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip3(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
AbsV(v) == IF v < 0 THEN -v ELSE v
Pow(k) == 2^k
MaxV(f) == Pow(f[3]) - 1
Planes(f) == IF f[1] = 1 THEN 1 ELSE 3
PW(f, w, p) == IF p = 1 THEN w ELSE w \div Pow(f[4])
PH(f, h, p) == IF p = 1 THEN h ELSE h \div Pow(f[5])
Int816(f) == f[2] = 0 /\ f[3] <= 16
Bytes(f) == IF f[3] <= 8 THEN 1 ELSE IF f[3] <= 16 THEN 2 ELSE 4
Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
Given(o) == o # <<>>
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Idx(n) == [i \in 1..n |-> i]
\* --- arguments ---
PlanesBad(a) == Given(a.planes) /\ (\E i \in 1..Len(a.planes[1]) : a.planes[1][i] \notin 0..2 \/ \E j \in 1..(i-1) : a.planes[1][j] = a.planes[1][i])
Proc(a, p) == ~Given(a.planes) \/ a.planes[1] = <<>> \/ \E i \in 1..Len(a.planes[1]) : a.planes[1][i] = p - 1
\* a per plane argument: the last value given is used for the remaining planes
Each(o, p, d) == IF o = <<>> \/ o[1] = <<>> THEN d ELSE o[1][Min2(p, Len(o[1]))]
Trunc4(v) == IF v >= 0 THEN v \div 4 ELSE -((-v) \div 4)
Round4(v) == IF v >= 0 THEN (v + 2) \div 4 ELSE -((2 - v) \div 4)          \* halves away from zero
SampleArg(o, p, d) == IF o = <<>> \/ o[1] = <<>> THEN d ELSE Trunc4(Each(o, p, 0) + 2)
SampleArgBad(o, f) == o # <<>> /\ (Len(o[1]) > Planes(f) \/ \E i \in 1..Len(o[1]) : Trunc4(o[1][i] + 2) \notin 0..MaxV(f))
TooMany(o, f) == o # <<>> /\ Len(o[1]) > Planes(f)
\* --- arithmetic ---
\* floor((x*y + add) / m) for factors below 2^16 without leaving 32 bits
MulDiv(x, y, add, m) == LET t == x * (y \div 256) IN (t \div m) * 256 + ((t % m) * 256 + x * (y % 256) + add) \div m
MulMod(x, y, add, m) == LET t == x * (y \div 256) IN ((t % m) * 256 + x * (y % 256) + add) % m
\* o is a right result for the number q + r/d (0 <= r < d) rounded and limited to 0..max
Near(q, r, d, o, max) == IF q >= max THEN o = max ELSE IF q < 0 THEN o = 0
                         ELSE (o = q /\ 50 * r <= 26 * d) \/ (o = q + 1 /\ 50 * r >= 24 * d)
\* --- clips alike ---
Same(c, d) == c.f = d.f /\ c.w = d.w /\ c.h = d.h
---------------------------------------------------------------------------
\* --- point filters ---
LevIn(a, p, f) == <<Round4(Each(a.min_in, p, 0)), Round4(Each(a.max_in, p, 4 * MaxV(f))), Round4(Each(a.min_out, p, 0)), Round4(Each(a.max_out, p, 4 * MaxV(f)))>>
LevelsOk(a, p, f, v, o) ==
  LET L == LevIn(a, p, f) x == Max2(Min2(v, L[2]) - L[1], 0) q == L[2] - L[1] r == L[4] - L[3] g == Each(a.gamma, p, 4) max == MaxV(f) IN
  CASE g = 4 -> LET n == IF r >= 0 THEN MulDiv(x, r, 0, q) ELSE -MulDiv(x, -r, 0, q) - (IF MulMod(x, -r, 0, q) > 0 THEN 1 ELSE 0)
                    m == IF r >= 0 THEN MulMod(x, r, 0, q) ELSE (q - MulMod(x, -r, 0, q)) % q
                IN Near(n + L[3], m, q, o, max)
    [] g = 2 -> LET n == x * x * r d == q * q IN Near((n \div d) + L[3], n % d, d, o, max)      \* exponent 2
    [] g = 8 -> LET s == 4 * x * r * r k == 2 * (o - L[3]) e == s \div 2000000 + 1 IN           \* exponent 1/2
                /\ o \in 0..max
                /\ o = max \/ ((k + 1) * (k + 1) * q >= s - e * q)
                /\ o = 0 \/ k - 1 <= 0 \/ (k - 1) * (k - 1) * q <= s + e * q
LevelsBad(a, f) ==
  \/ TooMany(a.min_in, f) \/ TooMany(a.max_in, f) \/ TooMany(a.min_out, f) \/ TooMany(a.max_out, f) \/ TooMany(a.gamma, f)
  \/ \E p \in 1..Planes(f) : Proc(a, p) /\ (\/ Each(a.max_in, p, 4 * MaxV(f)) <= Each(a.min_in, p, 0) \/ Each(a.gamma, p, 4) <= 0
                                            \/ LevIn(a, p, f)[1] = LevIn(a, p, f)[2])
LutV(a, x, max) == (x * a.m + a.c) % (max + 1)
Lut2V(a, x, y, max) == (x * a.m + y * a.m2 + a.c) % (max + 1)
Premul(x, al, off, max) == IF x >= off THEN MulDiv(x - off, al, max \div 2, max) ELSE -MulDiv(off - x, al, max \div 2, max)
\* --- neighbourhoods: coordinates outside the plane are mirrored at its edge ---
Mirror(x, n) == LET m == IF x < 0 THEN -x - 1 ELSE IF x >= n THEN 2 * n - 1 - x ELSE x IN Clip3(m, 0, n - 1)
\* the indexes of the taps of every position along an axis of length n, for 2r+1 taps
Taps(n, r) == TLCEval([x \in 0..(n-1) |-> [k \in 1..(2*r+1) |-> Mirror(x + k - r - 1, n)]])
Around(pl, w, xs, ys) == <<pl[ys[1]*w + xs[1] + 1], pl[ys[1]*w + xs[2] + 1], pl[ys[1]*w + xs[3] + 1],
                           pl[ys[2]*w + xs[1] + 1], pl[ys[2]*w + xs[3] + 1],
                           pl[ys[3]*w + xs[1] + 1], pl[ys[3]*w + xs[2] + 1], pl[ys[3]*w + xs[3] + 1]>>
Fold(s, v, co, up) == FoldLeft(LAMBDA z, k : IF co[k] = 0 THEN z ELSE IF up THEN Max2(z, s[k]) ELSE Min2(z, s[k]), v, Idx(8))
Below(s, o) == FoldLeft(LAMBDA z, v : IF v < o THEN z + 1 ELSE z, 0, s)
UpTo(s, o) == FoldLeft(LAMBDA z, v : IF v <= o THEN z + 1 ELSE z, 0, s)
Grad(s, k) == LET gx == s[6] + k * s[7] + s[8] - s[1] - k * s[2] - s[3] gy == s[3] + k * s[5] + s[8] - s[1] - k * s[4] - s[6] IN gx * gx + gy * gy
\* round(sqrt(S) * scale), scale in quarters
GradOk(S, sc, o, max) == LET v == S * sc * sc e == v \div 2000000 k == 2 * o IN      \* the gradients of the samples used are small enough for 32 bits
  /\ o \in 0..max /\ k < 22000 /\ (o = max \/ 4 * (k + 1) * (k + 1) >= v - e) /\ (o = 0 \/ 4 * (k - 1) * (k - 1) <= v + e)
\* --- Convolution ---
ConvR(a) == IF a.mode \in {<<>>, <<"s">>} THEN (CASE Len(a.matrix) = 9 -> 1 [] Len(a.matrix) = 25 -> 2 [] Len(a.matrix) = 49 -> 3 [] Len(a.matrix) = 81 -> 4 [] Len(a.matrix) = 121 -> 5)
            ELSE Len(a.matrix) \div 2
Square(a) == a.mode \in {<<>>, <<"s">>}
Horiz(a) == a.mode \in {<<"h">>, <<"hv">>, <<"vh">>}
Vert(a) == a.mode \in {<<"v">>, <<"hv">>, <<"vh">>}
CoefR(a) == [i \in 1..Len(a.matrix) |-> Round4(a.matrix[i])]
ConvBad(a, c) ==
  \/ ~Square(a) /\ ~Horiz(a) /\ ~Vert(a)
  \/ Square(a) /\ Len(a.matrix) \notin {9, 25, 49, 81, 121}
  \/ ~Square(a) /\ (Len(a.matrix) < 3 \/ Len(a.matrix) > 25 \/ Len(a.matrix) % 2 = 0)
  \/ \E i \in 1..Len(a.matrix) : Round4(a.matrix[i]) \notin -1023..1023
  \/ \E p \in 1..Planes(c.f) : Proc(a, p) /\ ((Horiz(a) /\ Len(a.matrix) \div 2 >= PW(c.f, c.w, p)) \/ (Vert(a) /\ Len(a.matrix) \div 2 >= PH(c.f, c.h, p)))
\* the divisor in quarters
ConvD(a) == IF Opt(a.divisor4, 0) # 0 THEN a.divisor4[1] ELSE LET s == Sum(CoefR(a)) IN IF s = 0 THEN 4 ELSE 4 * s
\* acc / (D/4) + B/4 = (16 acc + B D) / (4 D)
ConvNum(acc, B, D, sat) == LET n == IF D > 0 THEN 16 * acc + B * D ELSE -(16 * acc + B * D) IN IF sat \/ n >= 0 THEN n ELSE -n
ConvOk(acc, B, D, sat, o, max) == LET n == ConvNum(acc, B, D, sat) d == 4 * AbsV(D) IN Near(n \div d, n % d, d, o, max)
ConvRound(acc, B, D, sat, max) == LET n == ConvNum(acc, B, D, sat) d == 4 * AbsV(D) IN Clip3((2 * n + d) \div (2 * d), 0, max)
ConvSum(c, pl, w, xs, ys) == IF Len(xs) = 1 THEN FoldLeftDomain(LAMBDA z, k : z + c[k] * pl[ys[k]*w + xs[1] + 1], 0, c)
                             ELSE IF Len(ys) = 1 THEN FoldLeftDomain(LAMBDA z, k : z + c[k] * pl[ys[1]*w + xs[k] + 1], 0, c)
                             ELSE LET n == Len(xs) IN FoldLeftDomain(LAMBDA z, k : z + c[k] * pl[ys[((k-1) \div n) + 1]*w + xs[((k-1) % n) + 1] + 1], 0, c)
\* --- BoxBlur: running averages along rows, then along columns; odd passes round up, even ones down ---
BlurPass(pl, w, h, r, up, hor) == TLCEval([i \in 1..(w*h) |-> LET x == (i-1) % w y == (i-1) \div w IN
    (FoldLeft(LAMBDA z, k : z + (IF hor THEN pl[y*w + Clip3(x + k - r - 1, 0, w-1) + 1] ELSE pl[Clip3(y + k - r - 1, 0, h-1)*w + x + 1]), 0, Idx(2*r+1)) + (IF up THEN 2*r ELSE 0)) \div (2*r+1)])
BlurAxis(pl, w, h, r, n, hor) == IF r = 0 THEN pl ELSE FoldLeft(LAMBDA q, k : BlurPass(q, w, h, r, k % 2 = 1, hor), pl, Idx(n))
Blurred(pl, w, h, a) == BlurAxis(BlurAxis(pl, w, h, Opt(a.hradius, 1), Opt(a.hpasses, 1), TRUE), w, h, Opt(a.vradius, 1), Opt(a.vpasses, 1), FALSE)
\* --- AverageFrames ---
AvgW(a) == [i \in 1..Len(a.weights) |-> Round4(a.weights[i])]
AvgScale(a) == IF Given(a.scale4) THEN Round4(a.scale4[1]) ELSE Max2(1, Sum(AvgW(a)))
Flag(fr, k) == k \in DOMAIN fr.pr /\ fr.pr[k] # 0
\* weights of frames on the other side of a scene change are given to the centre frame
AvgWeights(a, fs) ==
  LET w == AvgW(a) n == Len(w) c == (n \div 2) + 1
      from == IF \E i \in 2..c : Flag(fs[i], "_SceneChangePrev") THEN CHOOSE i \in 2..c : Flag(fs[i], "_SceneChangePrev") /\ \A j \in (i+1)..c : ~Flag(fs[j], "_SceneChangePrev") ELSE 1
      to == IF \E i \in c..(n-1) : Flag(fs[i], "_SceneChangeNext") THEN CHOOSE i \in c..(n-1) : Flag(fs[i], "_SceneChangeNext") /\ \A j \in c..(i-1) : ~Flag(fs[j], "_SceneChangeNext") ELSE n
  IN IF Opt(a.scenechange, 0) = 0 THEN w
     ELSE [i \in 1..n |-> IF i < from \/ i > to THEN 0 ELSE IF i = c THEN w[c] + Sum([j \in 1..n |-> IF j < from \/ j > to THEN w[j] ELSE 0]) ELSE w[i]]
\* --- Expr: values in sixteenths ---
\* the integer square root of a number below 2^28
Root(x) == FoldLeft(LAMBDA r, k : IF (r + Pow(14 - k)) * (r + Pow(14 - k)) <= x THEN r + Pow(14 - k) ELSE r, 0, Idx(14))
T16(b) == IF b THEN 16 ELSE 0
ExprStep(st, t, v) ==
  LET n == Len(st) x == st[n] y == IF n > 1 THEN st[n-1] ELSE 0 un(r) == [st EXCEPT ![n] = r] bin(r) == Append(SubSeq(st, 1, n-2), r) IN
  CASE t[1] = "c" -> Append(st, t[2])
    [] t[1] = "v" -> Append(st, 16 * v[t[2]])
    [] t[1] = "dup" -> Append(st, st[n - t[2]])
    [] t[1] = "swap" -> [st EXCEPT ![n] = st[n - t[2]], ![n - t[2]] = st[n]]
    [] t[1] = "abs" -> un(AbsV(x)) [] t[1] = "not" -> un(T16(x <= 0))
    [] t[1] = "sqrt" -> un(Root(16 * x))
    [] t[1] = "+" -> bin(y + x) [] t[1] = "-" -> bin(y - x) [] t[1] = "*" -> bin((y * x) \div 16) [] t[1] = "/" -> bin(IF x > 0 THEN (16 * y) \div x ELSE (-16 * y) \div (-x))
    [] t[1] = "max" -> bin(Max2(x, y)) [] t[1] = "min" -> bin(Min2(x, y))
    [] t[1] = ">" -> bin(T16(y > x)) [] t[1] = "<" -> bin(T16(y < x)) [] t[1] = "=" -> bin(T16(y = x))
    [] t[1] = ">=" -> bin(T16(y >= x)) [] t[1] = "<=" -> bin(T16(y <= x))
    [] t[1] = "and" -> bin(T16(y > 0 /\ x > 0)) [] t[1] = "or" -> bin(T16(y > 0 \/ x > 0)) [] t[1] = "xor" -> bin(T16((y > 0) # (x > 0)))
    [] t[1] = "pow" -> bin(CASE x = 0 -> 16 [] x = 16 -> y [] x = 32 -> (y * y) \div 16 [] x = 48 -> (((y * y) \div 16) * y) \div 16)
    [] t[1] = "?" -> Append(SubSeq(st, 1, n-3), IF st[n-2] > 0 THEN y ELSE x)
ExprVal(e, v) == LET st == FoldLeft(LAMBDA s, t : ExprStep(s, t, v), <<>>, e) IN st[1]
\* the value divided by d and rounded; ties go to the even number when nothing was lost before
ExprOk(e, d, v, o, max) == LET r == ExprVal(e, v) m == 16 * d q == r \div m k == r % m IN
  IF d = 1 THEN o = Clip3(IF 2 * k < m THEN q ELSE IF 2 * k > m THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1, 0, max)
  ELSE Near(q, k, m, o, max)
ExprOf(a, p) == a.exprs[Min2(p, Len(a.exprs))]
---------------------------------------------------------------------------
Generic3 == {"Minimum", "Maximum", "Median", "Deflate", "Inflate", "Prewitt", "Sobel"}
Small(a, c) == \E p \in 1..Planes(c.f) : Proc(a, p) /\ (PW(c.f, c.w, p) < 4 \/ PH(c.f, c.h, p) < 4)
ThBad(a, f) == Given(a.threshold4) /\ Round4(a.threshold4[1]) \notin 0..MaxV(f)
OutBits(a, c) == Opt(a.bits, c.f[3])
\* unspecified: float formats, and what the missing resizer is needed for
Unsure(f, ins, a) == (\E i \in 1..Len(ins) : ins[i].f[2] # 0)
   \/ (f = "MaskedMerge" /\ (Opt(a.first_plane, 0) # 0 \/ ins[3].f[1] = 1) /\ Planes(ins[1].f) > 1 /\ (ins[1].f[4] > 0 \/ ins[1].f[5] > 0) /\ (Proc(a, 2) \/ Proc(a, 3)))
   \/ (f = "PreMultiply" /\ Planes(ins[1].f) > 1 /\ (ins[1].f[4] > 0 \/ ins[1].f[5] > 0))
Bad(f, ins, a) == LET c == ins[1] IN
  \/ ~Int816(c.f) \/ ("planes" \in DOMAIN a /\ PlanesBad(a))
  \/ CASE f \in {"Invert", "InvertMask"} -> FALSE
       [] f = "Limiter" -> SampleArgBad(a.min, c.f) \/ SampleArgBad(a.max, c.f) \/ \E p \in 1..3 : SampleArg(a.min, p, 0) > SampleArg(a.max, p, MaxV(c.f))
       [] f \in {"Binarize", "BinarizeMask"} -> SampleArgBad(a.threshold, c.f) \/ SampleArgBad(a.v0, c.f) \/ SampleArgBad(a.v1, c.f)
       [] f = "Levels" -> LevelsBad(a, c.f)
       [] f \in {"Minimum", "Maximum"} -> Small(a, c) \/ ThBad(a, c.f) \/ (Given(a.coordinates) /\ Len(a.coordinates[1]) # 8)
       [] f \in {"Deflate", "Inflate"} -> Small(a, c) \/ ThBad(a, c.f)
       [] f = "Median" -> Small(a, c)
       [] f \in {"Prewitt", "Sobel"} -> Small(a, c) \/ Opt(a.scale4, 4) < 0
       [] f = "Convolution" -> Small(a, c) \/ ConvBad(a, c)
       [] f = "BoxBlur" -> LET hr == Opt(a.hradius, 1) hp == Opt(a.hpasses, 1) vr == Opt(a.vradius, 1) vp == Opt(a.vpasses, 1) IN
            hr < 0 \/ hp < 0 \/ vr < 0 \/ vp < 0 \/ hr > 30000 \/ vr > 30000 \/ (hr * hp = 0 /\ vr * vp = 0) \/ c.w < 4 \/ c.h < 4
       [] f = "Lut" -> OutBits(a, c) \notin 8..16 \/ a.extra # 0 \/ a.sets # 1 \/ (Bytes(c.f) # (IF OutBits(a, c) > 8 THEN 2 ELSE 1) /\ \E p \in 1..Planes(c.f) : ~Proc(a, p))
       [] f = "Lut2" -> LET d == ins[2] IN c.f[3] + d.f[3] > 20 \/ c.f[4] # d.f[4] \/ c.f[5] # d.f[5] \/ c.w # d.w \/ c.h # d.h
            \/ OutBits(a, c) \notin 8..16 \/ a.extra # 0 \/ a.sets # 1 \/ (Bytes(c.f) # (IF OutBits(a, c) > 8 THEN 2 ELSE 1) /\ \E p \in 1..Planes(c.f) : ~Proc(a, p))
            \/ \E p \in 1..Planes(c.f) : Proc(a, p) /\ p > Planes(d.f)
       [] f = "Merge" -> ~Same(c, ins[2]) \/ Len(a.w) > Planes(c.f) \/ \E i \in 1..Len(a.w) : a.w[i] \notin 0..65536
       [] f = "MaskedMerge" -> LET m == ins[3] IN ~Same(c, ins[2]) \/ m.w # c.w \/ m.h # c.h \/ m.f[3] # c.f[3]
            \/ (m.f # c.f /\ m.f[1] # 1 /\ Opt(a.first_plane, 0) = 0)
       [] f = "PreMultiply" -> LET m == ins[2] IN m.f[1] # 1 \/ m.f[3] # c.f[3] \/ c.w # m.w \/ c.h # m.h
       [] f \in {"MakeDiff", "MergeDiff", "MakeFullDiff"} -> ~Same(c, ins[2])
       [] f = "MergeFullDiff" -> ~Same(c, [ins[2] EXCEPT !.f = [@ EXCEPT ![3] = @ - 1]])
       [] f = "AverageFrames" -> (IF Len(ins) = 1 THEN Len(a.weights) % 2 = 0 ELSE Len(a.weights) # Len(ins) \/ Opt(a.scenechange, 0) # 0)
            \/ Len(a.weights) > 31 \/ Len(ins) > 31 \/ (\E i \in 1..Len(ins) : ~Same(c, ins[i])) \/ (\E i \in 1..Len(a.weights) : Round4(a.weights[i]) \notin -1023..1023)
            \/ (Given(a.scale4) /\ Round4(a.scale4[1]) < 1)
       [] f = "Expr" -> a.bad # 0 \/ Len(ins) > 26 \/ Len(a.exprs) > Planes(c.f)
            \/ (\E i \in 1..Len(ins) : ~Int816(ins[i].f) \/ Planes(ins[i].f) # Planes(c.f) \/ ins[i].f[4] # c.f[4] \/ ins[i].f[5] # c.f[5] \/ ins[i].w # c.w \/ ins[i].h # c.h)
            \/ (Given(a.fmt) /\ (a.fmt[1][1] # c.f[1] \/ a.fmt[1][4] # c.f[4] \/ a.fmt[1][5] # c.f[5] \/ ~Int816(a.fmt[1])))
OutFmt(f, ins, a) == LET c == ins[1] IN
  CASE f \in {"Lut", "Lut2"} -> [c.f EXCEPT ![3] = OutBits(a, c)]
    [] f = "MakeFullDiff" -> [c.f EXCEPT ![3] = @ + 1]
    [] f = "Expr" -> Opt(a.fmt, c.f)
    [] OTHER -> c.f
OutLen(f, ins) == IF f = "AverageFrames" THEN FoldLeft(LAMBDA z, i : Max2(z, i.len), 0, ins) ELSE ins[1].len
\* the source frames of output frame n, as <<input, frame>>; frames past the end of an input are its last one
Needs(f, ins, a, n) == LET at(j, k) == <<j, Clip3(k, 0, ins[j].len - 1)>> IN
  IF f = "AverageFrames" /\ Len(ins) = 1 THEN [i \in 1..Len(a.weights) |-> at(1, n - (Len(a.weights) \div 2) + i - 1)]
  ELSE [j \in 1..Len(ins) |-> at(j, n)]
Props(f, ins, fs) == IF f = "AverageFrames" /\ Len(ins) = 1 THEN fs[(Len(fs) \div 2) + 1].pr ELSE fs[1].pr
Limited(fr, f) == IF "_Range" \in DOMAIN fr.pr THEN fr.pr["_Range"] = 0 ELSE f[1] \in {1, 3}
Off(fr, f, p) == IF p > 1 /\ f[1] = 3 THEN Pow(f[3] - 1) ELSE IF Limited(fr, f) THEN Pow(f[3] - 4) ELSE 0
FrameBad(f, ins, a, fs) == f = "MaskedMerge" /\ Opt(a.premultiplied, 0) # 0 /\ Limited(fs[1], ins[1].f) # Limited(fs[2], ins[1].f) /\ \E p \in 1..Planes(ins[1].f) : Proc(a, p)
Wide(pl) == \E i \in 1..Len(pl) : AbsV(pl[i] - pl[1]) > 1200
\* <<>> if plane p of the result may be o, else what is wrong
First(n, Ok(_)) == IF \A i \in 1..n : Ok(i) THEN <<>> ELSE <<CHOOSE i \in 1..n : ~Ok(i)>>
Eq(n, o, V(_)) == IF \A i \in 1..n : o[i] = V(i) THEN <<>> ELSE LET i == CHOOSE i \in 1..n : o[i] # V(i) IN <<i, V(i)>>
Whole(o, x) == IF o = x THEN <<>> ELSE LET i == CHOOSE i \in 1..Len(o) : o[i] # x[i] IN <<i, x[i]>>
NbHood(f, a, c, s, w, h, o) ==
  LET max == MaxV(c.f) n == w * h IN
  \A ab \in {<<Taps(w, 1), Taps(h, 1)>>} :
  LET S(i) == Around(s, w, ab[1][(i-1) % w], ab[2][(i-1) \div w]) th == IF f \in {"Minimum", "Maximum", "Deflate", "Inflate"} THEN (IF Given(a.threshold4) THEN Round4(a.threshold4[1]) ELSE max) ELSE 0 IN
  CASE f = "Median" -> \A i \in 1..n : \A q \in {Append(S(i), s[i])} : Below(q, o[i]) <= 4 /\ UpTo(q, o[i]) >= 5
    [] f = "Minimum" -> \A i \in 1..n : o[i] = Max2(Fold(S(i), s[i], Opt(a.coordinates, <<1,1,1,1,1,1,1,1>>), FALSE), s[i] - th)
    [] f = "Maximum" -> \A i \in 1..n : o[i] = Min2(Fold(S(i), s[i], Opt(a.coordinates, <<1,1,1,1,1,1,1,1>>), TRUE), s[i] + th)
    [] f = "Deflate" -> \A i \in 1..n : o[i] = Max2(Min2((Sum(S(i)) + 4) \div 8, s[i]), s[i] - th)
    [] f = "Inflate" -> \A i \in 1..n : o[i] = Min2(Max2((Sum(S(i)) + 4) \div 8, s[i]), s[i] + th)
    [] f \in {"Prewitt", "Sobel"} -> Wide(s) \/ \A i \in 1..n : GradOk(Grad(S(i), IF f = "Sobel" THEN 2 ELSE 1), Opt(a.scale4, 4), o[i], max)
Conv(a, c, s, w, h, o) ==
  LET max == MaxV(c.f) n == w * h cf == CoefR(a) r == ConvR(a) B == Opt(a.bias4, 0) D == ConvD(a) sat == Opt(a.saturate, 1) # 0 one(m) == [x \in 0..(m-1) |-> <<x>>] IN
  \A t \in {<<IF Square(a) \/ Horiz(a) THEN Taps(w, r) ELSE one(w), IF Square(a) \/ Vert(a) THEN Taps(h, r) ELSE one(h), TLCEval(cf)>>} :
    IF Horiz(a) /\ Vert(a)       \* columns first, rounded, then rows
    THEN \A m \in {TLCEval([i \in 1..n |-> ConvRound(ConvSum(t[3], s, w, <<(i-1) % w>>, t[2][(i-1) \div w]), B, D, sat, max)])} :
           First(n, LAMBDA i : ConvOk(ConvSum(t[3], m, w, t[1][(i-1) % w], <<(i-1) \div w>>), B, D, sat, o[i], max)) = <<>>
    ELSE First(n, LAMBDA i : ConvOk(ConvSum(t[3], s, w, t[1][(i-1) % w], t[2][(i-1) \div w]), B, D, sat, o[i], max)) = <<>>
Plane(f, ins, a, fs, of, p, o) ==
  LET c == ins[1] w == PW(c.f, c.w, p) h == PH(c.f, c.h, p) n == w * h s == fs[1].pl[p] max == MaxV(c.f) half == Pow(c.f[3] - 1) ok(b) == IF b THEN <<>> ELSE <<0>> IN
  IF Len(o) # n THEN <<"size", n>>
  ELSE IF "planes" \in DOMAIN a /\ ~Proc(a, p) /\ (f \in {"Lut", "Lut2"} => Bytes(of) = Bytes(c.f)) THEN Whole(o, IF f = "AverageFrames" /\ Len(ins) = 1 THEN fs[(Len(fs) \div 2) + 1].pl[p] ELSE s)
  ELSE CASE f \in {"Invert", "InvertMask"} -> Eq(n, o, LAMBDA i : max - s[i])
    [] f = "Limiter" -> LET lo == SampleArg(a.min, p, 0) hi == SampleArg(a.max, p, max) IN Eq(n, o, LAMBDA i : Clip3(s[i], lo, hi))
    [] f \in {"Binarize", "BinarizeMask"} -> LET t == SampleArg(a.threshold, p, half) v0 == SampleArg(a.v0, p, 0) v1 == SampleArg(a.v1, p, max) IN Eq(n, o, LAMBDA i : IF s[i] < t THEN v0 ELSE v1)
    [] f = "Levels" -> First(n, LAMBDA i : LevelsOk(a, p, c.f, s[i], o[i]))
    [] f \in Generic3 -> ok(NbHood(f, a, c, s, w, h, o))
    [] f = "Convolution" -> ok(Conv(a, c, s, w, h, o))
    [] f = "BoxBlur" -> Whole(o, Blurred(s, w, h, a))
    [] f = "Lut" -> Eq(n, o, LAMBDA i : LutV(a, s[i], MaxV(of)))
    [] f = "Lut2" -> Eq(n, o, LAMBDA i : Lut2V(a, s[i], fs[2].pl[p][i], MaxV(of)))
    [] f = "Merge" -> LET t == fs[2].pl[p] k == IF a.w = <<>> THEN 32768 ELSE a.w[Min2(p, Len(a.w))] q == Min2((k + 1) \div 2, 32767) IN
         IF k = 0 THEN Whole(o, s) ELSE IF k = 65536 THEN Whole(o, t) ELSE Eq(n, o, LAMBDA i : s[i] + ((t[i] - s[i]) * q + 16384) \div 32768)
    [] f = "MaskedMerge" -> LET t == fs[2].pl[p] m == fs[3].pl[IF Opt(a.first_plane, 0) # 0 \/ ins[3].f[1] = 1 THEN 1 ELSE p] e == Off(fs[1], c.f, p) IN
         IF Opt(a.premultiplied, 0) = 0 THEN Eq(n, o, LAMBDA i : IF t[i] >= s[i] THEN s[i] + MulDiv(t[i] - s[i], m[i], max \div 2, max) ELSE t[i] + MulDiv(s[i] - t[i], max - m[i], max \div 2, max))
         ELSE Eq(n, o, LAMBDA i : Clip3(Premul(s[i], max - m[i], e, max) + t[i], 0, max))
    [] f = "PreMultiply" -> LET al == fs[2].pl[1] e == Off(fs[1], c.f, p) IN Eq(n, o, LAMBDA i : Premul(s[i], al[i], e, max) + e)
    [] f = "MakeDiff" -> LET t == fs[2].pl[p] IN Eq(n, o, LAMBDA i : Clip3(s[i] - t[i] + half, 0, max))
    [] f = "MergeDiff" -> LET t == fs[2].pl[p] IN Eq(n, o, LAMBDA i : Clip3(s[i] + t[i] - half, 0, max))
    [] f = "MakeFullDiff" -> LET t == fs[2].pl[p] IN Eq(n, o, LAMBDA i : s[i] - t[i] + 2 * half)
    [] f = "MergeFullDiff" -> LET t == fs[2].pl[p] IN Eq(n, o, LAMBDA i : Clip3(s[i] + t[i] - 2 * half, 0, max))
    [] f = "AverageFrames" -> LET b == IF p > 1 /\ c.f[1] = 3 THEN half ELSE 0 d == AvgScale(a) IN
         ok(\A ws \in {TLCEval(AvgWeights(a, fs))} : First(n, LAMBDA i : LET v == FoldLeftDomain(LAMBDA z, k : z + ws[k] * (fs[k].pl[p][i] - b), 0, ws) IN Near((v \div d) + b, v % d, d, o[i], max)) = <<>>)
    [] f = "Expr" -> LET e == ExprOf(a, p) IN IF e.t = <<>> THEN (IF of[3] = c.f[3] THEN Whole(o, s) ELSE <<>>)
         ELSE First(n, LAMBDA i : ExprOk(e.t, e.d, [j \in 1..Len(ins) |-> fs[j].pl[p][i]], o[i], MaxV(of)))
=============================================================================
