----------------------------- MODULE PixelTrace -----------------------------
(* C17: what the real filters accept, declare and compute, on every CPU level. *)
EXTENDS Pixel, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
Frames(e, ins, n) == LET k == Needs(e.f, ins, e.a, n) IN [i \in 1..Len(k) |-> T[e.in[k[i][1]]].fr[k[i][2] + 1]]
FrameOk(e, ins, of, x, n, fs) == \A g \in {x} :
  /\ Rule((g.err = 1) = FrameBad(e.f, ins, e.a, fs), IF g.err = 1 THEN "the frame must not fail" ELSE "the frame must fail", <<e.f, g.cpu>>)
  /\ g.err = 1 \/
     (/\ Rule(<<g.f, g.w, g.h>> = <<of, ins[1].w, ins[1].h>>, "frame format", <<e.f, of>>)
      /\ Rule(g.pr = Props(e.f, ins, fs), "frame properties", <<e.f, g.cpu, Props(e.f, ins, fs)>>)
      /\ \A p \in 1..Len(g.pl) : \A r \in {Plane(e.f, ins, e.a, fs, of, p, g.pl[p])} : Rule(r = <<>>, "samples", <<e.f, g.cpu, "frame", n, "plane", p - 1, r, "got", IF r # <<>> /\ r[1] \in 1..Len(g.pl[p]) THEN g.pl[p][r[1]] ELSE "-", "args", e.a>>))
Call == LET e == T[l] IN
  \A ins \in {[j \in 1..Len(e.in) |-> LET c == T[e.in[j]] IN [f |-> c.f, w |-> c.w, h |-> c.h, len |-> c.len]]} :
    IF Unsure(e.f, ins, e.a) THEN TRUE
    ELSE \A bad \in {Bad(e.f, ins, e.a)} :
      /\ Rule((e.ok = 0) = bad, IF bad THEN "must be rejected" ELSE "must be accepted", <<e.f, e.a, ins, e.err>>)
      /\ Rule(e.differ = 0, "depends on the CPU", <<e.f, e.a, ins>>)
      /\ Rule(e.ok = 1 \/ e.err # "", "no error message", e.f)
      /\ e.ok = 0 \/ \A of \in {OutFmt(e.f, ins, e.a)} :
           /\ Rule(e.info = <<of, ins[1].w, ins[1].h, OutLen(e.f, ins), 24, 1>>, "declared clip", <<e.f, of, OutLen(e.f, ins)>>)
           /\ \A i \in 1..Len(e.fr) : \A fs \in {TLCEval(Frames(e, ins, e.fr[i].n))} : \A k \in 1..Len(e.fr[i].outs) : FrameOk(e, ins, of, e.fr[i].outs[k], e.fr[i].n, fs)
Step == IF T[l].op = "src" THEN TRUE ELSE Call
Init == l = 1
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
