---------------------------- MODULE ReorderTrace ----------------------------
(* C13: what the real filters accept, declare and return. *)
EXTENDS Reorder, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
LIM == 300
VARIABLES l, clips
vars == <<l, clips>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
\* the duration a source frame was given
SrcFrame(id, mode, n) == CASE mode = 1 -> <<id, n, (n % 7) + 1, 24>> [] mode = 2 -> <<id, n, (n % 7) + 1, -1>> [] mode = 3 -> <<id, n, n % 5, 30>> [] mode = 4 -> <<id, n, 1001, 30000>> [] mode = 5 -> <<id, n, 3, 0>> [] mode = 6 -> <<id, n, -1, 5>> [] OTHER -> <<id, n, -1, -1>>
Info(i) == [w |-> i[1], h |-> i[2], fmt |-> i[3], num |-> i[4], den |-> i[5], len |-> i[6]]
Short(c) == c.m # <<>>
RECURSIVE At(_, _)
At(c, n) == IF Short(c) THEN c.m[n + 1]
            ELSE IF c.f = "source" THEN SrcFrame(c.id, c.mode, n)
            ELSE LET p == Pick(c.f, Lens(c.ins), c.a, n) IN Scaled(c.f, Len(c.ins), c.a, At(c.ins[p[1]], p[2]))
\* clips keep their inputs only when they are too long to be written down
Made(i, f, ins, a) ==
  IF i.len > LIM THEN i @@ [m |-> <<>>, f |-> f, ins |-> ins, a |-> a]
  ELSE IF \A j \in 1..Len(ins) : Short(ins[j]) THEN i @@ [m |-> Build(f, [j \in 1..Len(ins) |-> ins[j].m], a), f |-> f]
  ELSE i @@ [m |-> [n \in 1..i.len |-> LET p == Pick(f, Lens(ins), a, n - 1) IN Scaled(f, Len(ins), a, At(ins[p[1]], p[2]))], f |-> f]
Ins(e) == [j \in 1..Len(e.ins) |-> clips[e.ins[j]]]
PassThrough(f, ins, a) == Len(ins) = 1 /\ f \in {"Interleave", "Splice"}
Step == LET e == T[l] IN
  CASE e.op = "src" -> LET i == Info(e.info) IN
         clips' = (e.id :> (i @@ [m |-> IF i.len > LIM THEN <<>> ELSE [n \in 1..i.len |-> SrcFrame(e.id, e.mode, n - 1)], f |-> "source", id |-> e.id, mode |-> e.mode])) @@ clips
    [] e.op = "call" ->
         \A ins \in {Ins(e)} : \A rej \in {Rejects(e.f, ins, e.a)} :
           /\ Rule((e.ok = 0) = rej, IF rej THEN "must be rejected" ELSE "must be accepted", <<e.f, e.a, [j \in 1..Len(ins) |-> [x \in {"w", "h", "fmt", "num", "den", "len"} |-> ins[j][x]]]>>)
           /\ Rule(e.ok = 1 \/ e.err # "", "no error message", e.f)
           /\ IF e.ok = 0 THEN UNCHANGED clips
              ELSE \A i \in {OutInfo(e.f, ins, e.a)} : Rule(Info(e.info) = i, "declared clip", i) /\ clips' = (e.id :> Made(i, e.f, ins, e.a)) @@ clips
    [] e.op = "get" ->
         /\ \A j \in 1..Len(e.rows) : LET r == e.rows[j] IN \A x \in {At(clips[e.id], r[1])} :
              Rule(r[2] = 1 /\ <<r[3], r[4]>> = <<x[1], x[2]>>, "source frame", <<e.id, r[1], x>>) /\ Rule(<<r[5], r[6]>> = <<x[3], x[4]>>, "duration", <<e.id, r[1], x>>) /\ Rule(r[7] = 1, "content", <<e.id, r[1], x>>)
         /\ UNCHANGED clips
    [] e.op = "drop" -> clips' = [x \in DOMAIN clips \ {e.id} |-> clips[x]]
Init == l = 1 /\ clips = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
