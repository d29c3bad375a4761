----------------------------- MODULE GeometryMC -----------------------------
(* Small frames whose pixels name themselves under chains of the C15 filters.
   Aligned: pixels of the subsampled planes stay with the luma pixels they cover (the reason
   for the alignment rules).  Laws: what the filters undo of each other. *)
EXTENDS Geometry
CONSTANT Depth, Formats
VARIABLES clip, fr, depth, moved     \* moved: fields or planes were rearranged, so chroma need not cover luma any more
vars == <<clip, fr, depth, moved>>
NoArgs == [none |-> 0]
P0 == [left |-> <<>>, right |-> <<>>, top |-> <<>>, bottom |-> <<>>]
Tok(f, w, h) == LET F(p, x, y) == <<p, x, y>> IN MkFrame(f, w, h, ("_FieldBased" :> 1), F)
Fmts == IF Formats = 1 THEN {<<1, 0, 8, 0, 0>>, <<3, 0, 8, 1, 1>>} ELSE {<<1, 0, 8, 0, 0>>, <<3, 0, 8, 1, 1>>, <<3, 0, 8, 1, 0>>, <<3, 0, 8, 0, 1>>, <<2, 0, 8, 0, 0>>}
Init == \E f \in Fmts : \E w \in {2, 4} : \E h \in {2, 4} :
          clip = [f |-> f, w |-> w, h |-> h, len |-> 3, num |-> 24, den |-> 1] /\ fr = Tok(f, w, h) /\ depth = 0 /\ moved = FALSE
Some(S) == {<<>>} \cup {<<x>> : x \in S}
Crops == {[left |-> a, right |-> b, top |-> c, bottom |-> d] : a \in Some({-1, 1, 2, IMAX}), b \in Some({1, 2, 3, IMAX}), c \in Some({1, 2}), d \in Some({-1, 2, 4})}
Abs == {[left |-> a, x |-> <<2>>, top |-> b, y |-> <<>>, width |-> c, height |-> d] : a \in Some({0, 1}), b \in Some({2}), c \in {0, 1, 2, 4, IMAX}, d \in {1, 2, 3}}
Borders == {[left |-> a, right |-> b, top |-> c, bottom |-> <<>>, color |-> e] : a \in Some({1, 2, IMAX}), b \in Some({-1, 2, IMAX}), c \in Some({1, 2}), e \in {<<>>, <<8>>, <<0, 3, 2047>>, <<2044>>}}
ArgsOf(f) == CASE f = "CropAbs" -> Abs [] f = "Crop" -> Crops [] f = "AddBorders" -> Borders
               [] f = "SeparateFields" -> {[tff |-> t, md |-> m] : t \in Some({0, 1}), m \in Some({0})} [] f = "DoubleWeave" -> {[tff |-> t] : t \in Some({0, 1})}
               [] f = "ShufflePlanes" -> {[cf |-> c, planes |-> p, nclips |-> 1, prop |-> 0] : c \in {0, 1, 2, 3}, p \in {<<0>>, <<2>>, <<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 0>>, <<1, 1, 2>>, <<0, 0, 0>>, <<0, 3, 3>>}}
               [] f = "SplitPlanes" -> {[k |-> k] : k \in 1..Planes(clip.f)} [] OTHER -> {NoArgs}
FNames == {"CropAbs", "Crop", "AddBorders", "FlipVertical", "FlipHorizontal", "Turn180", "Transpose", "Turn90", "Turn270", "StackVertical", "StackHorizontal", "ShufflePlanes", "SplitPlanes", "SeparateFields", "DoubleWeave"}
Mover(f) == f \in {"ShufflePlanes", "SplitPlanes", "SeparateFields", "DoubleWeave"}
Next == /\ depth < Depth
        /\ \E f \in FNames : \E a \in ArgsOf(f) : \E n \in IF f \in {"SeparateFields", "DoubleWeave"} THEN {0, 1} ELSE {0} :
             LET ins == IF f \in {"StackVertical", "StackHorizontal"} THEN <<clip, clip>> ELSE <<clip>>
                 fs == IF f = "DoubleWeave" THEN <<fr, fr>> ELSE [i \in 1..Len(ins) |-> fr] IN
             /\ ~Rejects(f, ins, a)
             /\ \E out \in {OutInfo(f, ins, a)} : \E x \in {FrameOut(f, fs, a, out, n)} : x.f # <<>> /\ clip' = out /\ fr' = x
             /\ depth' = depth + 1 /\ moved' = (moved \/ Mover(f))
Spec == Init /\ [][Next]_vars
\* the frame is what the clip promises
Promised == /\ <<clip.f, clip.w, clip.h>> = <<fr.f, fr.w, fr.h>> /\ clip.w > 0 /\ clip.h > 0 /\ Len(fr.pl) = Planes(clip.f)
            /\ \A p \in 1..Planes(clip.f) : Len(fr.pl[p]) = PW(clip.f, clip.w, p) * PH(clip.f, clip.h, p) /\ Len(fr.pl[p]) > 0
            /\ clip.w % Pow2(clip.f[4]) = 0 /\ clip.h % Pow2(clip.f[5]) = 0
Laws ==
  LET eq(x, y) == <<x.f, x.w, x.h, x.pl, x.pr>> = <<y.f, y.w, y.h, y.pl, y.pr>> IN
  /\ eq(FlipV(FlipV(fr)), fr) /\ eq(FlipH(FlipH(fr)), fr) /\ eq(FlipV(FlipH(fr)), Turned180(fr)) /\ eq(Transposed(Transposed(fr)), fr)
  /\ eq(Turned270(Turned90(fr)), fr) /\ eq(Turned90(Turned90(fr)), Turned180(fr)) /\ eq(Turned90(fr), FlipH(Transposed(fr))) /\ eq(Turned270(fr), FlipV(Transposed(fr)))
  /\ \A a \in {x \in Borders : ~Rejects("AddBorders", <<clip>>, x) /\ ~NoBorder(x)} :
       LET o == OutInfo("AddBorders", <<clip>>, a) b == FrameOut("AddBorders", <<fr>>, a, o, 0) IN
       \A c \in {[left |-> a.left, right |-> a.right, top |-> a.top, bottom |-> a.bottom]} : ~Rejects("Crop", <<o>>, c) /\ eq(FrameOut("Crop", <<b>>, c, clip, 0), fr)
  /\ LET v == OutInfo("StackVertical", <<clip, clip>>, NoArgs) h == OutInfo("StackHorizontal", <<clip, clip>>, NoArgs) IN
     /\ eq(CropFrame(StackedV(<<fr, FlipV(fr)>>), 0, clip.h, clip.w, clip.h), IF clip.h % 2 = 0 THEN FlipV(fr) ELSE [FlipV(fr) EXCEPT !.pr = FlipField(@, 1)])
     /\ eq(CropFrame(StackedH(<<FlipH(fr), fr>>), clip.w, 0, clip.w, clip.h), [fr EXCEPT !.pr = FlipH(fr).pr])
     /\ eq(CropFrame(StackedV(<<fr, fr>>), 0, 0, clip.w, clip.h), fr)
  /\ \A t \in {0, 1} : Rejects("SeparateFields", <<clip>>, [tff |-> <<t>>, md |-> <<0>>]) \/
       LET f0 == Separated(fr, [tff |-> <<t>>, md |-> <<0>>], 0) f1 == Separated(fr, [tff |-> <<t>>, md |-> <<0>>], 1) w == Woven(f0, f1, [tff |-> <<>>], 0)
       IN w.pl = fr.pl /\ w.h = fr.h /\ w.pr["_FieldBased"] = (IF Prop(fr.pr, "_FieldBased", 0) \in {1, 2} THEN fr.pr["_FieldBased"] ELSE 1 + t)
  /\ Planes(clip.f) = 1 \/ LET s == [k \in 1..3 |-> FrameOut("SplitPlanes", <<fr>>, [k |-> k], OutInfo("SplitPlanes", <<clip>>, [k |-> k]), 0)]
                                si == [k \in 1..3 |-> OutInfo("SplitPlanes", <<clip>>, [k |-> k])] a == [cf |-> clip.f[1], planes |-> <<0, 0, 0>>, nclips |-> 3, prop |-> 0] IN
       ~Rejects("ShufflePlanes", si, a) /\ OutInfo("ShufflePlanes", si, a) = clip /\ eq(ShFrame(s, a, clip.f), fr)
\* a chroma pixel <<p, x, y>> of a source with (log2) subsampling sw, sh covers the luma pixels <<1, u, v>> with u div 2^sw = x and v div 2^sh = y
SrcSub == {<<0, 0>>, <<1, 1>>, <<1, 0>>, <<0, 1>>}
Aligned == moved \/ Planes(clip.f) < 3 \/
  \* (a border pixel is a number, any other a triple)
  LET Num(v) == Len(ToString(v)) < 5 IN
  \E s \in SrcSub : \A p \in 2..3 : \A k \in 1..Len(fr.pl[p]) : LET w == PW(clip.f, clip.w, p) X == (k - 1) % w Y == (k - 1) \div w c == fr.pl[p][k] IN
    \A u \in 0..(Pow2(clip.f[4]) - 1) : \A v \in 0..(Pow2(clip.f[5]) - 1) : LET t == Px(fr, 1, X * Pow2(clip.f[4]) + u, Y * Pow2(clip.f[5]) + v) IN
      IF Num(c) THEN Num(t) ELSE ~Num(t) /\ t[2] \div Pow2(s[1]) = c[2] /\ t[3] \div Pow2(s[2]) = c[3]
=============================================================================
