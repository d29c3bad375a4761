---------------------------- MODULE VSMapTrace -----------------------------
EXTENDS VSMap, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ms
NMaps == 4
\* saturation of the 64 bit values the driver uses that do not fit an int
Sat == ("-9223372036854775808" :> "-2147483648") @@ ("-2147483649" :> "-2147483648") @@ ("2147483648" :> "2147483647")
       @@ ("9223372036854775807" :> "2147483647") @@ ("4294967296" :> "2147483647") @@ ("-4294967295" :> "-2147483648")
SatI(v) == IF v \in DOMAIN Sat THEN Sat[v] ELSE v
\* double -> float bit patterns of the driver's values
F32 == ("0000000000000000" :> "00000000") @@ ("8000000000000000" :> "80000000") @@ ("3ff8000000000000" :> "3fc00000")
       @@ ("c002000000000000" :> "c0100000") @@ ("3fb999999999999a" :> "3dcccccd") @@ ("3370000000000000" :> "00000000")
SatF(v, got) == IF v \in DOMAIN F32 THEN F32[v] ELSE got
DHint(v) == CHOOSE h \in {"-1", "0", "1"} : Len(v) > Len(h) /\ SubSeq(v, 1, Len(h) + 1) = h \o ":"
DHex(v)  == SubSeq(v, Len(DHint(v)) + 2, Len(v))

DumpOf(m) == [err |-> m.msg, past |-> 0,
              ks |-> LET s == SortedKeys(m) IN [j \in 1..Len(s) |-> [k |-> s[j], t |-> TypeNo[m.kv[s[j]].t], n |-> Len(m.kv[s[j]].v),
                                                    v |-> IF m.err THEN <<>> ELSE m.kv[s[j]].v]]]
GetTypes == [i |-> {"i"}, is |-> {"i"}, ia |-> {"i"}, f |-> {"f"}, fs |-> {"f"}, fa |-> {"f"}, d |-> {"d"}, dsz |-> {"d"}, dh |-> {"d"},
             n |-> {"vn", "an"}, fr |-> {"vf", "af"}, fn |-> {"fn"}]
GetDefault == [i |-> "0", is |-> "0", ia |-> "null", f |-> "0000000000000000", fs |-> "00000000", fa |-> "null", d |-> "null", dsz |-> "-1",
               dh |-> "-1", n |-> "null", fr |-> "null", fn |-> "null"]
Expect(m, e) ==      \* what the getter must return: [err, v, a]
    IF e.g = "ne" THEN [err |-> 0, v |-> ToString(NumElements(m, e.k)), a |-> <<>>]
    ELSE IF e.g = "ty" THEN [err |-> 0, v |-> ToString(TypeNumber(m, e.k)), a |-> <<>>]
    ELSE LET k == IF e.g \in {"i", "is", "ia"} THEN Canon(e.k) ELSE e.k
             er == Lookup(m, k, e.i, GetTypes[e.g])
         IN IF er # 0 THEN [err |-> er, v |-> GetDefault[e.g], a |-> <<>>]
            ELSE LET x == m.kv[k].v[e.i + 1] IN
              CASE e.g = "i"  -> [err |-> 0, v |-> ViewI(e.k, x), a |-> <<>>]
                [] e.g = "is" -> [err |-> 0, v |-> SatI(ViewI(e.k, x)), a |-> <<>>]
                [] e.g = "ia" -> [err |-> 0, v |-> "ok", a |-> [j \in 1..Len(m.kv[k].v) |-> ViewI(e.k, m.kv[k].v[j])]]
                [] e.g = "f"  -> [err |-> 0, v |-> x, a |-> <<>>]
                [] e.g = "fs" -> [err |-> 0, v |-> SatF(x, e.v), a |-> <<>>]
                [] e.g = "fa" -> [err |-> 0, v |-> "ok", a |-> m.kv[k].v]
                [] e.g = "d"  -> [err |-> 0, v |-> DHex(x), a |-> <<>>]
                [] e.g = "dsz" -> [err |-> 0, v |-> ToString(Len(DHex(x)) \div 2), a |-> <<>>]
                [] e.g = "dh" -> [err |-> 0, v |-> DHint(x), a |-> <<>>]
                [] OTHER -> [err |-> 0, v |-> x, a |-> <<>>]

Ok(b, want) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, "expected", want, "logged", T[l]>>) /\ FALSE
Chk(x) == Ok(T[l].r = x.r, x.r)
\* the API returns 1 from mapDeleteKey when something was deleted
Step ==
  LET e == T[l] m == IF "m" \in DOMAIN e THEN e.m ELSE 0 IN
  CASE e.op = "reset" -> ms' = [x \in 0..(NMaps - 1) |-> EmptyMap]
    [] e.op = "set"    -> LET x == DoSet(ms[m], e.k, e.t, e.v, e.app) IN Chk(x) /\ ms' = [ms EXCEPT ![m] = x.m]
    [] e.op = "setarr" -> LET x == DoSetArr(ms[m], e.k, e.t, e.vs) IN Chk(x) /\ ms' = [ms EXCEPT ![m] = x.m]
    [] e.op = "empty"  -> LET x == DoEmpty(ms[m], e.k, e.t) IN Chk(x) /\ ms' = [ms EXCEPT ![m] = x.m]
    [] e.op = "del"    -> LET x == DoDelete(ms[m], e.k) IN Chk(x) /\ ms' = [ms EXCEPT ![m] = x.m]
    [] e.op = "clear"  -> ms' = [ms EXCEPT ![m] = DoClear]
    [] e.op = "error"  -> ms' = [ms EXCEPT ![m] = DoError(e.s)]
    [] e.op = "copy"   -> ms' = [ms EXCEPT ![e.d] = DoCopy(ms[m], ms[e.d])]
    [] e.op = "dump"   -> LET w == DumpOf(ms[m]) IN Ok([err |-> e.err, past |-> e.past, ks |-> e.ks] = w, w) /\ UNCHANGED ms
    [] e.op = "get"    -> LET w == Expect(ms[m], e) IN Ok([err |-> e.err, v |-> e.v, a |-> e.a] = w, w) /\ UNCHANGED ms
Init == l = 1 /\ ms = [x \in 0..(NMaps - 1) |-> EmptyMap]
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_<<l, ms>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
============================================================================
