---------------------------- MODULE FormatsTrace ----------------------------
(* C12: what the format functions of the real core answer. *)
EXTENDS Formats, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, names
vars == <<l, names>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
\* a row: w, h, queryVideoFormat result, filled in as asked, bytes per sample, planes, identifier (two halves), the identifier leads back, name ("" when refused), node creation
RowRule(e, r) ==
  LET v == ValidV(e.cf, e.st, e.bits, r[1], r[2])
      nm == NameV(e.cf, e.st, e.bits, r[1], r[2])
  IN Rule(IF v THEN /\ r[3] = 1 /\ r[4] = 1 /\ r[5] = Bytes(e.bits) /\ r[6] = Planes(e.cf)
                    /\ r[7] = IdHi(e.cf, e.st, e.bits) /\ r[8] = IdLo(r[1], r[2]) /\ r[9] = 1
                    /\ (IF Known(e.cf, r[1], r[2]) THEN r[10] = nm ELSE r[10] # "" /\ (r[10] \in DOMAIN names => names[r[10]] = <<e.cf, e.st, e.bits, r[1], r[2]>>)) /\ Len(r[10]) < 32
                    /\ r[11] # 0
          ELSE r[3] = 0 /\ r[7] = 0 /\ r[8] = 0 /\ r[9] = 1 /\ r[10] = "" /\ r[11] # 1, "video format", <<e.cf, e.st, e.bits, r, IF v THEN nm ELSE "invalid">>)
Valid(e) == {i \in 1..Len(e.rows) : ValidV(e.cf, e.st, e.bits, e.rows[i][1], e.rows[i][2])}
New(e) == LET S == {i \in Valid(e) : ~Known(e.cf, e.rows[i][1], e.rows[i][2])}
          IN [n \in {e.rows[i][10] : i \in S} |-> LET i == CHOOSE i \in S : e.rows[i][10] = n IN <<e.cf, e.st, e.bits, e.rows[i][1], e.rows[i][2]>>]
IdRule(r) == LET d == Decode(r[1], r[2]) v == ValidV(d.cf, d.st, d.bits, d.w, d.h) IN
  Rule(d.cf = 0 \/ IF v THEN r[3] = 1 /\ r[4] = d.cf /\ r[5] = d.st /\ r[6] = d.bits /\ r[7] = d.w /\ r[8] = d.h /\ r[9] = Bytes(d.bits) /\ r[10] = Planes(d.cf) ELSE r[3] = 0, "identifier", <<r, d>>)
AudioRule(r) == LET bits == {r[3][i] : i \in 1..Len(r[3])} v == ValidA(r[1], r[2], bits) IN
  Rule(IF v THEN r[4] = 1 /\ r[5] = 1 /\ r[6] = Bytes(r[2]) /\ r[7] = Cardinality(bits) /\ r[8] = NameA(r[1], r[2], r[7]) ELSE r[4] = 0 /\ r[8] = "", "audio format", r)
Step == LET e == T[l] IN
  CASE e.op = "v" -> (\A i \in 1..Len(e.rows) : RowRule(e, e.rows[i])) /\ names' = New(e) @@ names
    [] e.op = "id" -> (\A i \in 1..Len(e.rows) : IdRule(e.rows[i])) /\ UNCHANGED names
    [] e.op = "a" -> (\A i \in 1..Len(e.rows) : AudioRule(e.rows[i])) /\ UNCHANGED names
    [] OTHER -> \* presets of the header, and the undefined format
       (\A i \in 1..Len(e.rows) : Rule(e.rows[i][1] = e.rows[i][2], "preset", e.rows[i])) /\ Rule(e.undef = <<1, 0, 1, "Undefined">>, "undefined format", e.undef) /\ UNCHANGED names
Init == l = 1 /\ names = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
