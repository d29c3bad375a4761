--------------------------- MODULE GeometryTrace ---------------------------
(* C15: what the real filters accept, declare and return. *)
EXTENDS Geometry, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
Info(i) == [f |-> i[1], w |-> i[2], h |-> i[3], len |-> i[4], num |-> i[5], den |-> i[6]]
Diff(x, y) == IF Len(x) # Len(y) THEN <<"planes", Len(y)>> ELSE LET p == CHOOSE p \in 1..Len(x) : x[p] # y[p] IN IF Len(x[p]) # Len(y[p]) THEN <<"plane", p, "has pixels", Len(x[p]), "not", Len(y[p])>> ELSE LET k == CHOOSE k \in 1..Len(x[p]) : x[p][k] # y[p][k] IN <<"plane", p, "pixel", k - 1, "is", x[p][k], "must be", y[p][k]>>
Got(r) == [f |-> r.f, w |-> r.w, h |-> r.h, pl |-> r.pl, pr |-> r.pr]
Same(r, x) ==
  /\ Rule((r.err = 1) = (x.f = <<>>), IF r.err = 1 THEN "the frame must not fail" ELSE "the frame must fail", <<>>)
  /\ r.err = 1 \/ (/\ Rule(<<r.f, r.w, r.h>> = <<x.f, x.w, x.h>>, "frame format", <<x.f, x.w, x.h>>)
                   /\ Rule(r.pr = x.pr, "frame properties", x.pr)
                   /\ IF r.pl = x.pl THEN TRUE ELSE Rule(FALSE, "pixels", Diff(r.pl, x.pl)))
Step == LET e == T[l] IN
  \A ins \in {[j \in 1..Len(e.ins) |-> Info(e.ins[j])]} : \A rej \in {Rejects(e.f, ins, e.a)} :
    /\ Rule((e.ok = 0) = rej, IF rej THEN "must be rejected" ELSE "must be accepted", <<e.f, e.a, ins>>)
    /\ Rule(e.ok = 1 \/ e.err # "", "no error message", e.f)
    /\ e.ok = 0 \/
       (/\ Rule(Len(e.outs) = (IF e.f = "SplitPlanes" THEN Planes(ins[1].f) ELSE 1), "number of clips", Len(e.outs))
        /\ \A k \in 1..Len(e.outs) : \A a \in {IF e.f = "SplitPlanes" THEN [k |-> k] ELSE e.a} : \A i \in {OutInfo(e.f, ins, a)} :
             /\ Rule(Info(e.outs[k].info) = i, "declared clip", i)
             /\ \A j \in 1..Len(e.outs[k].fr) : \A g \in {e.outs[k].fr[j]} :
                  /\ Rule([x \in 1..Len(g.src) |-> g.src[x].n] = Need(e.f, ins, g.n), "driver: source frames", Need(e.f, ins, g.n))
                  /\ IF \E x \in 1..Len(g.src) : g.src[x].err = 1 THEN Rule(g.out.err = 1, "the frame must fail", g.n)
                     ELSE \A fs \in {[y \in 1..Len(g.src) |-> Got(g.src[y])]} : \A x \in {FrameOut(e.f, fs, a, i, g.n)} : Same(g.out, x))
Init == l = 1
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
