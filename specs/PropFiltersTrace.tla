-------------------------- MODULE PropFiltersTrace --------------------------
(* C16: what the real filters accept, declare and return; and what the called functions are given. *)
EXTENDS PropFilters, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, clips, pix
vars == <<l, clips, pix>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
RECURSIVE SameFrame(_, _)
SameProps(p, q) == /\ DOMAIN p = DOMAIN q
                   /\ \A k \in DOMAIN p : IF p[k][1] = "q" THEN q[k][1] = "f" /\ Len(q[k][2]) = 1 /\ Abs(p[k][2][1] - q[k][2][1]) <= 1
                                          ELSE p[k][1] = q[k][1] /\ Len(p[k][2]) = Len(q[k][2])
                                               /\ IF p[k][1] = "v" THEN \A i \in 1..Len(p[k][2]) : SameFrame(p[k][2][i], q[k][2][i]) ELSE p[k][2] = q[k][2]
SameFrame(x, y) == x.w = y.w /\ x.h = y.h /\ x.fmt = y.fmt /\ x.px = y.px /\ SameProps(x.pr, y.pr)
Info(i) == [w |-> i.w, h |-> i.h, fmt |-> i.fmt, num |-> i.num, den |-> i.den, len |-> i.len]
Ins(e) == [j \in 1..Len(e.ins) |-> clips[e.ins[j]]]
Check(c, n, r) == \A x \in {AtN(c, n + 1)} :
   IF Bad(x) THEN Rule(r.ok = 0, "must fail", n) /\ Rule(IF x.bad = {} THEN r.err # "" ELSE r.err \in x.bad, "message", x)
   ELSE Rule(r.ok = 1, "must succeed", n) /\ Rule(r.fr.w = x.w /\ r.fr.h = x.h /\ r.fr.fmt = x.fmt, "format", x) /\ Rule(r.fr.px = x.px, "pixels", x) /\ Rule(SameProps(x.pr, r.fr.pr), "properties", <<n, x.pr>>)
Step == LET e == T[l] IN
  CASE e.op = "src" -> /\ pix' = [j \in {e.m[i].px : i \in 1..Len(e.m)} |-> e.pix[CHOOSE i \in 1..Len(e.m) : e.m[i].px = j]] @@ pix
                       /\ clips' = (e.id :> (Info(e.info) @@ [bits |-> e.info.bits, planes |-> e.info.planes, m |-> e.m])) @@ clips
    [] e.op = "call" ->
         \A ins \in {Ins(e)} : \A rej \in {Rejects(e.f, ins, e.a)} :
           /\ Rule((e.ok = 0) = rej, IF rej THEN "must be rejected" ELSE "must be accepted", <<e.f, e.a>>)
           /\ Rule(e.ok = 1 \/ e.err # "", "no error message", e.f)
           /\ UNCHANGED pix
           /\ IF e.ok = 0 THEN UNCHANGED clips
              ELSE \A o \in {Out(e.f, ins, e.a, pix, clips)} : Rule([x \in {"w", "h", "fmt", "num", "den", "len"} |-> e.info[x]] = [x \in {"w", "h", "fmt", "num", "den"} |-> o[x]] @@ [len |-> Len(o.m)], "declared clip", e.f)
                     /\ clips' = (e.id :> (o @@ [bits |-> e.info.bits, planes |-> e.info.planes, ins |-> e.ins])) @@ clips
    [] e.op = "get" -> (\A j \in 1..Len(e.rows) : Check(clips[e.id], e.rows[j].n, e.rows[j]) /\ Rule(e.rows[j].calls \in {-1, 1}, "calls of the function", <<e.id, e.rows[j].n>>)) /\ UNCHANGED <<clips, pix>>
    [] e.op = "fn" -> \* the function of FrameEval/ModifyFrame clip e.id was called
         /\ Rule(e.n \in 0..(Len(clips[e.id].m) - 1), "n", e.n)
         /\ Rule(e.keys = IF e.f = <<>> THEN <<"n">> ELSE <<"f", "n">>, "arguments", e.keys)
         /\ Rule(Len(e.f) = Len(clips[e.id].ins) - 1, "number of frames given", Len(e.f))
         /\ \A j \in 1..Len(e.f) : Rule(SameFrame(AtN(clips[clips[e.id].ins[j + 1]], e.n + 1), e.f[j]), "frame given", <<e.n, j>>)
         /\ UNCHANGED <<clips, pix>>
    [] e.op = "still" -> \* the frames a source gave away are as they were
         (\A j \in 1..Len(e.m) : Rule(SameFrame(clips[e.id].m[j], e.m[j]), "source frame changed", <<e.id, j>>)) /\ UNCHANGED <<clips, pix>>
Init == l = 1 /\ clips = <<>> /\ pix = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
