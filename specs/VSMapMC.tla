------------------------------ MODULE VSMapMC ------------------------------
(* Exhaustive check of the map design on small constants: failing calls     *)
(* change nothing, only the addressed key changes, types stay uniform, keys *)
(* stay sorted and valid, copies do not alias, errors clear the map.        *)
EXTENDS VSMap
CONSTANTS MaxLen, MaxMaps
Ka == <<97>>  Kb == <<66, 49>>  Kbad == <<57, 97>>
Keys == {Ka, Kbad, KColorRange}
Maps == 1..MaxMaps
VARIABLES ms, last
vars == <<ms, last>>
MsView == ms
Init == ms = [x \in Maps |-> EmptyMap] /\ last = [op |-> "init", m |-> 1, k |-> Ka, r |-> 0]
Note(op, m, k, r) == last' = [op |-> op, m |-> m, k |-> k, r |-> r]
Vals == {"0", "1"}
Set == \E m \in Maps, k \in Keys, t \in {"i", "d"}, v \in Vals, app \in {0, 1} :
          /\ ~(t = "d" /\ k = KColorRange)
          /\ LET x == DoSet(ms[m], k, t, v, app) IN ms' = [ms EXCEPT ![m] = x.m] /\ Note("set", m, k, x.r)
Empty == \E m \in Maps, k \in Keys, tn \in {0, 1, 3} : ~(tn = 3 /\ k = KColorRange) /\
          LET x == DoEmpty(ms[m], k, tn) IN ms' = [ms EXCEPT ![m] = x.m] /\ Note("empty", m, k, x.r)
Del == \E m \in Maps, k \in Keys : LET x == DoDelete(ms[m], k) IN ms' = [ms EXCEPT ![m] = x.m] /\ Note("del", m, k, 1 - x.r)
Copy == \E m, d \in Maps : m # d /\ ~ms[m].err /\ ~ms[d].err /\ ms' = [ms EXCEPT ![d] = DoCopy(ms[m], ms[d])] /\ Note("copy", d, Ka, 0)
Err == \E m \in Maps : ms' = [ms EXCEPT ![m] = DoError("e")] /\ Note("error", m, Ka, 0)
Clear == \E m \in Maps : ms' = [ms EXCEPT ![m] = DoClear] /\ Note("clear", m, Ka, 0)
Next == Set \/ Empty \/ Del \/ Copy \/ Err \/ Clear
Spec == Init /\ [][Next]_vars
Bounded == \A m \in Maps : \A k \in DOMAIN ms[m].kv : Len(ms[m].kv[k].v) <= MaxLen

TypeUniform == \A m \in Maps : \A k \in DOMAIN ms[m].kv : ms[m].kv[k].t \in DOMAIN TypeNo
KeysValid == \A m \in Maps : \A k \in DOMAIN ms[m].kv : ValidKey(k) /\ k # KColorRange
Sorted == \A m \in Maps : LET s == SortedKeys(ms[m]) IN \A j \in 1..(Len(s) - 1) : LexLess(s[j], s[j+1])
ErrorShape == \A m \in Maps : ms[m].err => KError \in DOMAIN ms[m].kv
ViewAgrees == \A m \in Maps : Has(ms[m], KRange) => ViewI(KColorRange, ViewI(KColorRange, "0")) = "0"
\* action properties
FailKeeps == [][last'.r = 1 => ms' = ms]_vars
OnlyTarget == [][\A x \in Maps : x # last'.m => ms'[x] = ms[x]]_vars
OnlyKey == [][last'.op \in {"set", "empty", "del"} =>
                LET m == last'.m IN \A k \in (DOMAIN ms[m].kv \cup DOMAIN ms'[m].kv) \ {Canon(last'.k)} :
                     k \in DOMAIN ms[m].kv /\ k \in DOMAIN ms'[m].kv /\ ms'[m].kv[k] = ms[m].kv[k]]_vars
AppendGrows == [][\A m \in Maps : last'.op = "set" /\ last'.m = m /\ last'.r = 0 => Len(ms'[m].kv[Canon(last'.k)].v) >= 1]_vars
============================================================================
