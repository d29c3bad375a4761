----------------------------- MODULE PropFilters -----------------------------
(* C16: filters which only touch frame properties, and the filters which call a function per frame.
   A frame is [fd, px, pr]: format and dimensions, pixels (opaque), and the properties, a function
   from key to <<type, values>>.  A failed frame is [bad |-> messages], the messages it may carry
   ({}: any).  A clip has declared data w, h, fmt, num, den and its frames m.
   The arguments a of a filter are those of the real function; optional ones are <<>> or <<v>>. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Opt(x, d) == IF x = <<>> THEN d ELSE x[1]
Bad(f) == "bad" \in DOMAIN f
Const(c) == c.w > 0 /\ c.h > 0 /\ c.fmt # "none"
AtN(c, n) == c.m[IF n > Len(c.m) THEN Len(c.m) ELSE n]          \* 1-based; beyond the end: the last frame
---------------------------------------------------------------------------
\* globs: * any characters, ? one character, everything else itself
RECURSIVE Glob(_, _)
Glob(p, s) == IF p = "" THEN s = ""
  ELSE LET c == SubSeq(p, 1, 1) r == SubSeq(p, 2, Len(p)) IN
       IF c = "*" THEN Glob(r, s) \/ (s # "" /\ Glob(p, SubSeq(s, 2, Len(s))))
       ELSE s # "" /\ (c = "?" \/ c = SubSeq(s, 1, 1)) /\ Glob(r, SubSeq(s, 2, Len(s)))
\* the same, over sets of prefixes: the positions reachable after each pattern character
GlobSet(p, s) == LET step(P, i) == LET c == SubSeq(p, i, i) IN
                       IF c = "*" THEN {x \in 0..Len(s) : \E y \in P : y <= x}
                       ELSE {x + 1 : x \in {y \in P : y < Len(s) /\ (c = "?" \/ c = SubSeq(s, y + 1, y + 1))}}
                 IN Len(s) \in FoldLeft(step, {0}, [i \in 1..Len(p) |-> i])
PInt(n) == <<"i", <<ToString(n)>>>>
Only(pr, K) == [k \in K |-> pr[k]]
Without(pr, K) == Only(pr, DOMAIN pr \ K)
---------------------------------------------------------------------------
\* what each filter does to the properties of one frame (others: properties of the frame of the second input)
SetProp(a, pr) == (a.prop :> (IF a.ints # <<>> THEN <<"i", a.ints[1]>> ELSE IF a.floats # <<>> THEN <<"f", a.floats[1]>> ELSE <<"d", a.data[1]>>)) @@ pr
SetProps(a, pr) == a.pr @@ pr
RemoveProps(a, pr) == IF a.props = <<>> THEN <<>> ELSE Only(pr, {k \in DOMAIN pr : \A i \in 1..Len(a.props[1]) : ~Glob(a.props[1][i], k)})
FieldBased(a, pr) == ("_FieldBased" :> PInt(a.value)) @@ Without(pr, {"_Field"})
CopyProps(a, pr, other) == IF a.props = <<>> THEN other
                           ELSE LET K == {a.props[1][i] : i \in 1..Len(a.props[1])} IN Only(other, K \cap DOMAIN other) @@ Without(pr, K)
Durations(num, den, pr) == ("_DurationNum" :> PInt(den)) @@ ("_DurationDen" :> PInt(num)) @@ pr

\* n * 2^20 / d rounded down, for 0 <= n <= d < 2^27
Q20(n, d) == FoldLeft(LAMBDA acc, i : LET r == acc[2] * 16 IN <<acc[1] * 16 + r \div d, r % d>>, <<n \div d, n % d>>, <<1, 2, 3, 4, 5>>)[1]
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
Least(s) == FoldLeft(LAMBDA acc, x : IF x < acc THEN x ELSE acc, s[1], s)
Most(s) == FoldLeft(LAMBDA acc, x : IF x > acc THEN x ELSE acc, s[1], s)
Abs(x) == IF x < 0 THEN -x ELSE x
\* integer samples are themselves, float samples are in 1/256; "q": a float given as a multiple of 2^-20, up to rounding
Stats(prefix, bits, s, t) ==
  LET f == bits > 16 n == Len(s)
      v(x) == IF f THEN <<"q", <<x * 4096>>>> ELSE PInt(x)
      frac(x) == <<"q", <<IF f THEN (IF x < 0 THEN -(((-x) * 4096) \div n) ELSE (x * 4096) \div n) ELSE Q20(x, n * (2^bits - 1))>>>>
      base == ((prefix \o "Min") :> v(Least(s))) @@ ((prefix \o "Max") :> v(Most(s))) @@ ((prefix \o "Average") :> frac(Sum(s)))
  IN IF t = <<>> THEN base ELSE ((prefix \o "Diff") :> frac(Sum([i \in 1..n |-> Abs(s[i] - t[i])]))) @@ base
---------------------------------------------------------------------------
Rejects(f, ins, a) ==
  CASE f = "SetFrameProp" -> LET k == Len(a.ints) + Len(a.floats) + Len(a.data) IN k # 1 \/ a.prop = ""
    [] f = "SetFieldBased" -> a.value \notin 0..2
    [] f = "ClipToProp" -> ~Const(ins[1]) \/ ~Const(ins[2])
    [] f = "PropToClip" -> \/ ~Const(ins[1]) \/ Opt(a.prop, "_Alpha") = "" \/ Opt(a.index, 0) < 0 \/ Bad(ins[1].m[1])
                           \/ LET pr == ins[1].m[1].pr k == Opt(a.prop, "_Alpha") IN ~(k \in DOMAIN pr /\ pr[k][1] = "v" /\ Opt(a.index, 0) < Len(pr[k][2]))
    [] f = "AssumeFPS" -> \/ (a.src = 1) = (a.num # <<>>)
                          \/ LET r == IF a.src = 1 THEN <<ins[2].num, ins[2].den>> ELSE <<a.num[1], Opt(a.den, 1)>> IN r[1] < 1 \/ r[2] < 1
    [] f = "PlaneStats" -> \/ ins[1].fmt = "none" \/ ins[1].bits \notin {8, 9, 10, 12, 14, 16, 32, 33} \/ Opt(a.plane, 0) < 0 \/ Opt(a.plane, 0) >= ins[1].planes
                           \/ Len(ins) = 2 /\ ~(Const(ins[1]) /\ Const(ins[2]) /\ ins[1].fmt = ins[2].fmt /\ ins[1].w = ins[2].w /\ ins[1].h = ins[2].h)
    [] OTHER -> FALSE
FpsOf(f, ins, a) == IF f = "AssumeFPS" THEN LET r == IF a.src = 1 THEN <<ins[2].num, ins[2].den>> ELSE <<a.num[1], Opt(a.den, 1)>> g == Gcd(r[1], r[2]) IN <<r[1] \div g, r[2] \div g>>
                    ELSE <<ins[1].num, ins[1].den>>
\* the frame a PropToClip finds
Stored(fr, a) == LET k == Opt(a.prop, "_Alpha") i == Opt(a.index, 0) IN
  IF k \in DOMAIN fr.pr /\ fr.pr[k][1] = "v" /\ i < Len(fr.pr[k][2]) THEN fr.pr[k][2][i + 1] ELSE [bad |-> {}]
OutInfo(f, ins, a) == LET c == ins[1] p == FpsOf(f, ins, a) IN
  IF f = "PropToClip" THEN LET v == Stored(c.m[1], a) IN [w |-> v.w, h |-> v.h, fmt |-> v.fmt, num |-> c.num, den |-> c.den, len |-> Len(c.m)]
  ELSE [w |-> c.w, h |-> c.h, fmt |-> c.fmt, num |-> p[1], den |-> p[2], len |-> IF f = "ClipToProp" THEN Len(ins[2].m) ELSE Len(c.m)]
BadOf(F) == IF \E x \in F : Bad(x) /\ x.bad = {} THEN [bad |-> {}] ELSE [bad |-> UNION {x.bad : x \in {y \in F : Bad(y)}}]
\* does a frame fit the declared dimensions and format of a clip?
Fits(c, fr) == (c.w = 0 \/ (c.w = fr.w /\ c.h = fr.h)) /\ (c.fmt = "none" \/ c.fmt = fr.fmt)
\* what the function given to FrameEval / ModifyFrame returns for frame n: b[n]; pool: all clips; others: the frames it was given
Answer(f, c, b, pool, given, n) ==
  LET r == CASE b[1] = "clip" -> AtN(pool[b[2]], n)
             [] b[1] = "make" -> LET x == AtN(pool[b[2]], n) IN IF Bad(x) THEN x ELSE [x EXCEPT !.pr = ("made" :> PInt(b[3])) @@ @]
             [] b[1] = "given" -> given[b[2]]
             [] b[1] = "edit" -> [given[b[2]] EXCEPT !.pr = ("edited" :> PInt(n - 1)) @@ @]
             [] b[1] = "frame" -> AtN(pool[b[2]], b[3])
             [] b[1] = "error" -> [bad |-> {b[2]}]
             [] OTHER -> [bad |-> {}]
  IN IF Bad(r) THEN r ELSE IF Fits(c, r) THEN r ELSE [bad |-> {}]
OutFrame(f, ins, a, pix, pool, n) ==
  LET src == {AtN(ins[i], n) : i \in (IF f \in {"FrameEval", "ModifyFrame"} THEN 2..Len(ins) ELSE 1..Len(ins))}
      x == AtN(ins[1], n) y == AtN(ins[IF Len(ins) = 1 THEN 1 ELSE 2], n)
      new(pr) == [x EXCEPT !.pr = pr]
  IN CASE f = "AssumeFPS" /\ ~Bad(x) -> LET p == FpsOf(f, ins, a) IN new(Durations(p[1], p[2], x.pr))   \* src is not read
       [] \E z \in src : Bad(z) -> BadOf(src)
       [] f = "SetFrameProp" -> new(SetProp(a, x.pr))
       [] f = "SetFrameProps" -> new(SetProps(a, x.pr))
       [] f = "RemoveFrameProps" -> new(RemoveProps(a, x.pr))
       [] f = "SetFieldBased" -> new(FieldBased(a, x.pr))
       [] f = "CopyFrameProps" -> new(CopyProps(a, x.pr, y.pr))
       [] f = "ClipToProp" -> new((Opt(a.prop, "_Alpha") :> <<"v", <<y>>>>) @@ x.pr)
       [] f = "PropToClip" -> LET v == Stored(x, a) o == OutInfo(f, ins, a) IN IF Bad(v) THEN v ELSE IF v.fmt = o.fmt /\ v.w = o.w /\ v.h = o.h THEN v ELSE [bad |-> {}]
       [] f = "PlaneStats" -> LET p == Opt(a.plane, 0) + 1 IN new(Stats(Opt(a.prop, "PlaneStats"), ins[1].bits, pix[x.px][p], IF Len(ins) = 1 THEN <<>> ELSE pix[y.px][p]) @@ x.pr)
       [] OTHER -> Answer(f, ins[1], a.b[n], pool, [i \in 1..(Len(ins) - 1) |-> AtN(ins[i + 1], n)], n)
Out(f, ins, a, pix, pool) == OutInfo(f, ins, a) @@ [m |-> [n \in 1..OutInfo(f, ins, a).len |-> OutFrame(f, ins, a, pix, pool, n)]]
=============================================================================
