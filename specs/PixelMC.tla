------------------------------ MODULE PixelMC ------------------------------
(* Laws of the sample functions of Pixel, on all pairs of rows of N samples of B bits. *)
EXTENDS Pixel
CONSTANTS N, B
VARIABLES s, t
F == <<1, 0, B, 0, 0>>
M == Pow(B) - 1
Row == [1..N -> 0..M]
C == [f |-> F, w |-> N, h |-> 1, len |-> 1]
G == [C EXCEPT !.f = [F EXCEPT ![3] = B + 1]]
Fr(x) == [pl |-> <<x>>, pr |-> [none |-> 0, _Range |-> 1]]
\* the rows the specification allows (samples are independent of each other in o, so one at a time, starting from a row of zeros, would do; N is small)
Out(f, a, xs) == LET ins == [i \in 1..Len(xs) |-> C] fs == [i \in 1..Len(xs) |-> Fr(xs[i])] IN {o \in Row : Plane(f, ins, a, fs, F, 1, o) = <<>>}
One(f, a, xs) == LET q == Out(f, a, xs) IN IF Cardinality(q) = 1 THEN CHOOSE o \in q : TRUE ELSE <<Cardinality(q)>>
P == [planes |-> <<>>]
Lim(lo, hi) == [planes |-> <<>>, min |-> <<<<4 * lo>>>>, max |-> <<<<4 * hi>>>>]
Nb == [planes |-> <<>>, threshold4 |-> <<>>, coordinates |-> <<>>, scale4 |-> <<>>]
Lev(a, b, c, d) == [planes |-> <<>>, min_in |-> <<<<4 * a>>>>, max_in |-> <<<<4 * b>>>>, min_out |-> <<<<4 * c>>>>, max_out |-> <<<<4 * d>>>>, gamma |-> <<>>]
Cv(m) == [planes |-> <<>>, matrix |-> m, bias4 |-> <<>>, divisor4 |-> <<>>, saturate |-> <<>>, mode |-> <<>>]
Bl(r, k) == [planes |-> <<>>, hradius |-> <<r>>, hpasses |-> <<k>>, vradius |-> <<1>>, vpasses |-> <<1>>]
Av(ws) == [planes |-> <<>>, weights |-> ws, scale4 |-> <<>>, scenechange |-> <<>>]
Ex(e) == [exprs |-> <<[t |-> e, d |-> 1]>>, fmt |-> <<>>, bad |-> 0]
Mm(p) == [planes |-> <<>>, first_plane |-> <<>>, premultiplied |-> <<p>>]
Inv(x) == One("Invert", P, <<x>>)
Le(x, y) == \A i \in 1..N : x[i] <= y[i]
Const(v) == [i \in 1..N |-> v]
Init == s = Const(0) /\ t \in Row
Next == s' \in Row /\ t' = t
Spec == Init /\ [][Next]_<<s, t>>
Involution == Inv(Inv(s)) = s /\ One("Levels", Lev(0, M, M, 0), <<s>>) = Inv(s) /\ One("Expr", Ex(<<<<"c", 16 * M>>, <<"v", 1>>, <<"-">>>>), <<s>>) = Inv(s)
Identities ==
  /\ One("Levels", Lev(0, M, 0, M), <<s>>) = s /\ One("Limiter", Lim(0, M), <<s>>) = s /\ One("Lut", [planes |-> <<>>, m |-> 1, c |-> 0], <<s>>) = s
  /\ One("Convolution", Cv(<<0,0,0,0,4,0,0,0,0>>), <<s>>) = s /\ One("AverageFrames", Av(<<4, 4, 4>>), <<s, s, s>>) = s /\ One("AverageFrames", Av(<<4, 0>>), <<s, t>>) = s
  /\ One("Merge", [w |-> <<0>>], <<s, t>>) = s /\ One("Merge", [w |-> <<65536>>], <<s, t>>) = t /\ One("Merge", [w |-> <<>>], <<s, s>>) = s
  /\ One("MaskedMerge", Mm(0), <<s, t, Const(0)>>) = s /\ One("MaskedMerge", Mm(0), <<s, t, Const(M)>>) = t /\ One("MaskedMerge", Mm(0), <<s, s, t>>) = s
  /\ One("PreMultiply", [none |-> 0], <<s, Const(M)>>) = s /\ One("PreMultiply", [none |-> 0], <<s, Const(0)>>) = Const(0)
  /\ One("Expr", Ex(<<>>), <<s, t>>) = s /\ One("Expr", Ex(<<<<"v", 2>>>>), <<s, t>>) = t
\* merging what was taken out puts it back: always with one more bit, else where nothing was clipped
Diffs == LET d == [i \in 1..N |-> s[i] - t[i] + Pow(B)] IN
  /\ Plane("MakeFullDiff", <<C, C>>, [none |-> 0], <<Fr(s), Fr(t)>>, G.f, 1, d) = <<>>
  /\ {o \in Row : Plane("MergeFullDiff", <<C, G>>, [none |-> 0], <<Fr(t), Fr(d)>>, F, 1, [i \in 1..N |-> Clip3(t[i] + d[i] - Pow(B), 0, M)]) = <<>>} # {} /\ [i \in 1..N |-> t[i] + d[i] - Pow(B)] = s
  /\ (\A i \in 1..N : s[i] - t[i] \in (-Pow(B-1))..(Pow(B-1) - 1)) => One("MergeDiff", P, <<t, One("MakeDiff", P, <<s, t>>)>>) = s
Between == \A w \in {1, 20000, 32768, 50000, 65535} : LET o == One("Merge", [w |-> <<w>>], <<s, t>>) IN \A i \in 1..N : Min2(s[i], t[i]) <= o[i] /\ o[i] <= Max2(s[i], t[i])
Order == LET mi == One("Minimum", Nb, <<s>>) ma == One("Maximum", Nb, <<s>>) me == One("Median", Nb, <<s>>) de == One("Deflate", Nb, <<s>>) inf == One("Inflate", Nb, <<s>>) IN
  /\ Le(mi, de) /\ Le(de, s) /\ Le(s, inf) /\ Le(inf, ma) /\ Le(mi, me) /\ Le(me, ma)
  /\ Inv(One("Minimum", Nb, <<Inv(s)>>)) = ma /\ Inv(One("Median", Nb, <<Inv(s)>>)) = me
  /\ (Le(s, t) => Le(mi, One("Minimum", Nb, <<t>>)) /\ Le(me, One("Median", Nb, <<t>>)))
Flat == s = Const(s[1]) => /\ One("BoxBlur", Bl(1, 1), <<s>>) = s /\ One("BoxBlur", Bl(3, 2), <<s>>) = s /\ One("Convolution", Cv(<<4,4,4,4,4,4,4,4,4>>), <<s>>) = s
                           /\ One("Median", Nb, <<s>>) = s /\ One("Sobel", Nb, <<s>>) = Const(0) /\ One("Prewitt", Nb, <<s>>) = Const(0)
Limits == LET o == One("Limiter", Lim(1, M - 1), <<s>>) IN One("Limiter", Lim(1, M - 1), <<o>>) = o /\ One("Expr", Ex(<<<<"v", 1>>, <<"c", 16>>, <<"max">>, <<"c", 16 * (M - 1)>>, <<"min">>>>), <<s>>) = o
\* a rounded result is there for every argument, and two only where both are as near
Rounded == \A a \in {Av(<<4, 4>>), Av(<<4, 8>>)} : LET q == Out("AverageFrames", a, <<s, t>>) IN q # {} /\ (a.weights = <<4, 8>> => Cardinality(q) = 1)
ASSUME \A x \in {0, 1, 2, 254, 255, 256, 257, 4095, 32767} : \A y \in {0, 1, 3, 255, 256, 4095, 65535} : \A m \in {1, 3, 255, 1023, 65535} : \A d \in {0, m \div 2} :
  x * y < 2000000000 => MulDiv(x, y, d, m) = (x * y + d) \div m /\ MulMod(x, y, d, m) = (x * y + d) % m
ASSUME \A r \in 0..300 : Root(r * r) = r /\ (r > 0 => Root(r * r - 1) = r - 1)
ASSUME \A n \in 1..6 : \A x \in (-3)..9 : Mirror(x, n) \in 0..(n-1) /\ (x \in 0..(n-1) => Mirror(x, n) = x)
=============================================================================
