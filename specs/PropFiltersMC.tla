---------------------------- MODULE PropFiltersMC ----------------------------
(* C16: the definitions of the property filters agree with what is said about them: chains of up to
   Depth filters over two clips with every assignment of a few properties; after each filter, which
   properties may have changed, and the laws the filters obey. *)
EXTENDS PropFilters
CONSTANTS Depth, Big
KEYS == {"a", "ab", "_Field"}
VALS == {<<"i", <<"1">>>>, <<"d", <<"x">>>>}
Maps == UNION {[K -> VALS] : K \in SUBSET KEYS}
Fr(px, pr) == [fmt |-> "G", w |-> 2, h |-> 1, px |-> px, pr |-> pr]
Clip(fs) == [w |-> 2, h |-> 1, fmt |-> "G", num |-> 25, den |-> 1, bits |-> 8, planes |-> 1, m |-> fs]
Pix == [p \in {"p1", "p2", "q1"} |-> CASE p = "p1" -> <<<<0, 255>>>> [] p = "p2" -> <<<<7, 7>>>> [] OTHER -> <<<<255, 0>>>>]
PATTERNS == {"*", "a*", "?", "a?", "_*", "*b", "", "a", "ab", "*a*b*", "x"}
Calls == [f : {"SetFrameProp"}, a : [prop : {"a", "", "_FieldBased"}, ints : {<<>>, << <<"5", "6">> >>}, floats : {<<>>, << <<1>> >>}, data : {<<>>}]]
   \cup [f : {"SetFrameProps"}, a : [pr : {<<>>, "a" :> <<"i", <<"3">>>>, ("b" :> <<"i", <<"3">>>>) @@ ("ab" :> <<"d", <<"y">>>>)}]]
   \cup [f : {"RemoveFrameProps"}, a : [props : {<<>>} \cup {<<<<p>>>> : p \in PATTERNS} \cup {<<<<"ab", "_*">>>>}]]
   \cup [f : {"SetFieldBased"}, a : [value : -1..3]]
   \cup [f : {"CopyFrameProps"}, a : [props : {<<>>, <<<<"a">>>>, <<<<"ab", "zz">>>>}]]
   \cup [f : {"ClipToProp"}, a : [prop : {<<>>, <<"a">>}]]
   \cup [f : {"PropToClip"}, a : [prop : {<<>>, <<"a">>}, index : {<<>>, <<1>>}]]
   \cup [f : {"AssumeFPS"}, a : [src : {0, 1}, num : {<<>>, <<50>>, <<0>>}, den : {<<>>, <<4>>}]]
   \cup [f : {"PlaneStats"}, a : [plane : {<<>>, <<1>>}, prop : {<<>>, <<"a">>}, two : {TRUE, FALSE}]]
   \cup [f : {"FrameEval", "ModifyFrame"}, a : [b : {<< <<"clip", 2>>, <<"make", 1, 9>>, <<"error", "e">> >>, << <<"given", 1>>, <<"edit", 1>>, <<"frame", 2, 1>> >>}]]
VARIABLES c, d, n, last
vars == <<c, d, n, last>>
Ins(x) == CASE x.f \in {"CopyFrameProps", "ClipToProp"} -> <<c, d>> [] x.f = "AssumeFPS" -> (IF x.a.src = 1 THEN <<c, d>> ELSE <<c>>) [] x.f = "PlaneStats" -> (IF x.a.two THEN <<c, d>> ELSE <<c>>)
          [] x.f = "ModifyFrame" -> <<c, c>> [] OTHER -> <<c>>
Pool == <<c, d>>
Init == /\ \E p \in Maps, q \in (IF Big THEN Maps ELSE {<<>>, [k \in {"a", "_Field"} |-> <<"i", <<"2">>>>]}) : c = Clip(<<Fr("p1", p), Fr("p2", q)>>) /\ d = Clip(<<Fr("q1", q)>>)
        /\ n = 0 /\ last = <<>>
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED d
        /\ \E x \in Calls : /\ (x.f = "FrameEval" => x.a.b[1][1] = "clip") /\ (x.f = "ModifyFrame" => x.a.b[1][1] = "given")
                            /\ ~Rejects(x.f, Ins(x), x.a)
                            /\ \A o \in {Out(x.f, Ins(x), x.a, Pix, Pool)} : c' = (o @@ [bits |-> 8, planes |-> 1]) /\ last' = <<x, c, Ins(x)>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Named(x) == CASE x.f = "SetFrameProp" -> {x.a.prop} [] x.f = "SetFrameProps" -> DOMAIN x.a.pr
   [] x.f = "RemoveFrameProps" -> (IF x.a.props = <<>> THEN KEYS \cup {"_FieldBased", "b", "_Alpha", "_DurationNum", "_DurationDen", "made", "edited"} \cup {q \o s : q \in {"PlaneStats", "a"}, s \in {"Min", "Max", "Average", "Diff"}}
                                    ELSE {k \in KEYS \cup {"_FieldBased", "b", "_Alpha", "_DurationNum", "_DurationDen", "made", "edited"} \cup {q \o s : q \in {"PlaneStats", "a"}, s \in {"Min", "Max", "Average", "Diff"}} : \E i \in 1..Len(x.a.props[1]) : GlobSet(x.a.props[1][i], k)})
   [] x.f = "SetFieldBased" -> {"_Field", "_FieldBased"} [] x.f = "CopyFrameProps" -> (IF x.a.props = <<>> THEN UNION {DOMAIN f.pr : f \in {g \in Range(last[2].m) \cup Range(d.m) : ~Bad(g)}} ELSE Range(x.a.props[1]))
   [] x.f = "ClipToProp" -> {Opt(x.a.prop, "_Alpha")} [] x.f = "AssumeFPS" -> {"_DurationNum", "_DurationDen"}
   [] x.f = "PlaneStats" -> {Opt(x.a.prop, "PlaneStats") \o s : s \in {"Min", "Max", "Average"} \cup (IF x.a.two THEN {"Diff"} ELSE {})}
   [] OTHER -> {}
Val(pr, k) == IF k \in DOMAIN pr THEN pr[k] ELSE <<>>
\* only the named properties change, and the pixels, format and length do not
FrameCondition == last # <<>> /\ last[1].f \notin {"PropToClip", "FrameEval", "ModifyFrame"} =>
  LET x == last[1] o == last[2] IN \A i \in 1..Len(c.m) : LET y == AtN(o, i) z == c.m[i] IN
    ~Bad(z) => z.px = y.px /\ z.w = y.w /\ z.h = y.h /\ z.fmt = y.fmt /\ \A k \in (DOMAIN y.pr \cup DOMAIN z.pr) \ Named(x) : Val(y.pr, k) = Val(z.pr, k)
\* the values the documentation promises
Promises == last # <<>> => LET x == last[1] o == last[2] IN \A i \in 1..Len(c.m) : LET z == c.m[i] y == AtN(o, i) e == AtN(d, i) IN
  Bad(z) \/ CASE x.f = "SetFieldBased" -> Val(z.pr, "_FieldBased") = PInt(x.a.value) /\ "_Field" \notin DOMAIN z.pr
    [] x.f = "RemoveFrameProps" -> DOMAIN z.pr = DOMAIN y.pr \ Named(x)
    [] x.f = "CopyFrameProps" -> IF x.a.props = <<>> THEN z.pr = e.pr ELSE \A k \in Named(x) : Val(z.pr, k) = Val(e.pr, k)
    [] x.f = "SetFrameProps" -> \A k \in DOMAIN x.a.pr : z.pr[k] = x.a.pr[k]
    [] x.f = "ClipToProp" -> Stored(z, [prop |-> x.a.prop, index |-> <<>>]) = e /\ Len(c.m) = Len(d.m)
    [] x.f = "AssumeFPS" -> z.pr["_DurationNum"] = PInt(c.den) /\ z.pr["_DurationDen"] = PInt(c.num) /\ Gcd(c.num, c.den) = 1
    [] x.f = "ModifyFrame" -> z.fmt = c.fmt
    [] OTHER -> TRUE
\* a failing function fails its own frame only, and with its message
Failures == last # <<>> /\ last[1].f = "FrameEval" => \A i \in 1..Len(c.m) : Bad(c.m[i]) <=> (last[1].a.b[i][1] = "error" \/ Bad(AtN(IF last[1].a.b[i][2] = 1 THEN last[2] ELSE d, i)))
Lengths == last # <<>> => Len(c.m) = IF last[1].f = "ClipToProp" THEN Len(d.m) ELSE Len(last[2].m)
Strings == {"", "a", "b", "ab", "ba", "aab", "abab"}
Globs == {"", "*", "?", "a", "a*", "*a", "?b", "*b*", "a*b", "**", "a?*", "*?*", "ab*ab"}
ASSUME \A p \in Globs \cup PATTERNS, s \in Strings \cup KEYS : Glob(p, s) = GlobSet(p, s)
ASSUME \A n0 \in {1, 3, 255, 1000, 65535}, d0 \in {255, 1000, 65535} : n0 <= d0 /\ n0 < 2000 => Q20(n0, d0) = (n0 * 1048576) \div d0
=============================================================================
