------------------------------- MODULE VSMap -------------------------------
(* Maps: sorted typed multimaps, the container of every VapourSynth call.   *)
(* A map is [err, msg, kv]; kv maps a key (sequence of character codes) to  *)
(* [t |-> type letter, v |-> sequence of values]; values are opaque except  *)
(* where an operation looks inside them (saturation, the _ColorRange alias).*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

TypeNo == [i |-> 1, f |-> 2, d |-> 3, fn |-> 4, vn |-> 5, an |-> 6, vf |-> 7, af |-> 8]
TypeOfNo(n) == CHOOSE t \in DOMAIN TypeNo : TypeNo[t] = n

EmptyMap == [err |-> FALSE, msg |-> "none", kv |-> << >>]   \* << >> : the function with empty domain

Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
Digit(c)  == c >= 48 /\ c <= 57
ValidKey(k) == Len(k) > 0 /\ Letter(k[1]) /\ \A j \in 2..Len(k) : Letter(k[j]) \/ Digit(k[j])

LexLess(a, b) == \E j \in 1..(Len(a) + 1) :
    /\ \A m \in 1..(j - 1) : m <= Len(b) /\ a[m] = b[m]
    /\ IF j > Len(a) THEN Len(b) > Len(a) ELSE j <= Len(b) /\ a[j] < b[j]
SortedKeys(m) == SetToSortSeq(DOMAIN m.kv, LexLess)

\* "_ColorRange" is the old name of "_Range" with the values 0 and 1 exchanged
KRange      == <<95, 82, 97, 110, 103, 101>>
KColorRange == <<95, 67, 111, 108, 111, 114, 82, 97, 110, 103, 101>>
KError      == <<95, 69, 114, 114, 111, 114>>
Canon(k) == IF k = KColorRange THEN KRange ELSE k
Flip(v)  == IF v = "0" THEN "1" ELSE IF v = "1" THEN "0" ELSE v
ViewI(k, v) == IF k = KColorRange THEN Flip(v) ELSE v

Has(m, k) == k \in DOMAIN m.kv
Put(m, k, e) == [m EXCEPT !.kv = (k :> e) @@ @]
Drop(m, k) == [m EXCEPT !.kv = [x \in DOMAIN @ \ {k} |-> @[x]]]
Res(m, r) == [m |-> m, r |-> r]

(* ---- mutators: [m |-> new map, r |-> 0 success, 1 failure] ------------- *)
Replace == 0
Append1 == 1
DoSet(m, k0, t, v0, app) ==
    LET k == IF t = "i" THEN Canon(k0) ELSE k0
        v == IF t = "i" THEN ViewI(k0, v0) ELSE v0
    IN IF ~ValidKey(k0) THEN Res(m, 1)
       ELSE IF app = Replace \/ ~Has(m, k) THEN Res(Put(m, k, [t |-> t, v |-> <<v>>]), 0)
       ELSE IF m.kv[k].t = t THEN Res(Put(m, k, [t |-> t, v |-> Append(m.kv[k].v, v)]), 0)
       ELSE Res(m, 1)
DoSetArr(m, k0, t, vs) ==
    LET k == IF t = "i" THEN Canon(k0) ELSE k0
    IN IF ~ValidKey(k0) THEN Res(m, 1)
       ELSE Res(Put(m, k, [t |-> t, v |-> IF t = "i" THEN [j \in 1..Len(vs) |-> ViewI(k0, vs[j])] ELSE vs]), 0)
DoEmpty(m, k0, tn) ==
    LET k == IF tn = 1 THEN Canon(k0) ELSE k0
    IN IF ~ValidKey(k0) \/ Has(m, k) \/ tn \notin 1..8 THEN Res(m, 1)
       ELSE Res(Put(m, k, [t |-> TypeOfNo(tn), v |-> <<>>]), 0)
DoDelete(m, k0) == LET k == Canon(k0) IN IF Has(m, k) THEN Res(Drop(m, k), 1) ELSE Res(m, 0)
DoClear == EmptyMap
DoError(s) == [err |-> TRUE, msg |-> s, kv |-> (KError :> [t |-> "d", v |-> <<"1:" \o s>>])]
\* all of src's keys replace those of dst; the rest of dst stays
DoCopy(src, dst) == [dst EXCEPT !.kv = src.kv @@ @]

(* ---- getters: [err, v] --------------------------------------------------- *)
peUnset == 1  peType == 2  peError == 3  peIndex == 4
Lookup(m, k, idx, types) ==       \* idx counts from 0
    IF m.err THEN peError
    ELSE IF ~Has(m, k) THEN peUnset
    ELSE IF idx >= Len(m.kv[k].v) THEN peIndex
    ELSE IF m.kv[k].t \notin types THEN peType ELSE 0
NumElements(m, k) == IF Has(m, Canon(k)) THEN Len(m.kv[Canon(k)].v) ELSE -1
TypeNumber(m, k)  == IF Has(m, Canon(k)) THEN TypeNo[m.kv[Canon(k)].t] ELSE 0
============================================================================
