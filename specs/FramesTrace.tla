---------------------------- MODULE FramesTrace -----------------------------
(* C07: frames are independent values; C09: the accounting of their buffers. *)
EXTENDS Frames, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l, s, d          \* d: description of the session: shapes, sizes
vars == <<l, s, d>>
Rule(p, b, what, exp) == IF b THEN TRUE ELSE IF Focus # p /\ Focus # "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp, T[l]>>) /\ FALSE
Audio(sh) == d.shapes[sh + 1].au = 1
Np(sh) == Len(d.shapes[sh + 1].pb)
Cls(sh, p) == d.shapes[sh + 1].pb[p] + 1
\* the size of a buffer: measured for its class, for big ones within the reuse slack of the allocator
Bounds(c, x) == x >= d.need[c] /\ x <= d.need[c] + d.need[c] \div 8 + 16384
ChkUsed(e, t) == Rule("C09", e.used < 0 \/ e.used = t.used, "used memory", t.used)
Sizes(sh, delta, n) == IF d.big = 1 /\ n = 1 /\ delta >= 0 THEN <<delta>> ELSE [p \in 1..n |-> d.size[Cls(sh, p)]]
Reset(e) ==
  /\ d' = [shapes |-> e.shapes, size |-> e.size, need |-> e.need, big |-> e.big]
  /\ s' = Empty
  /\ Rule("C09", e.used = 0, "used memory of a new core", 0)
  /\ Rule("C09", \A c \in 1..Len(e.size) : e.size[c] >= e.need[c] /\ e.size[c] <= e.need[c] + e.need[c] \div 8 + 16384, "size of a frame buffer", e.need)
  /\ Rule("C09", e.lim[2] = e.lim[1] /\ e.lim[3] = e.lim[1] /\ e.lim[4] = e.lim[1], "memory limit", e.lim[1])
New(e) ==
  LET vals == IF Audio(e.sh) THEN <<e.pl>> ELSE e.pl
      t == AddFrame(s, e.f, e.sh, vals, Sizes(e.sh, e.delta, Len(vals)), e.src)
  IN s' = t /\ ChkUsed(e, t)
     /\ Rule("C09", e.delta < 0 \/ d.big = 0 \/ Bounds(Cls(e.sh, 1), e.delta), "size of a big buffer", d.need)
\* audio frames never share single channels: the sources are copied into a new buffer
New2(e) ==
  IF Audio(e.sh)
  THEN LET v == [c \in 1..Np(e.sh) |-> IF e.from[c][1] >= 0 THEN s.buf[s.fr[e.from[c][1]].b[1]].v[e.from[c][2] + 1] ELSE e.pl[c]]
           t == AddFrame(s, e.f, e.sh, <<v>>, Sizes(e.sh, e.delta, 1), e.src)
       IN s' = t /\ ChkUsed(e, t)
  ELSE LET t == FromPlanes(s, e.f, e.sh, e.from, e.pl, Sizes(e.sh, IF e.from[1][1] >= 0 THEN -1 ELSE e.delta, Np(e.sh)), e.src)
       IN s' = t /\ ChkUsed(e, t)
Write(e) ==
  LET sh == s.fr[e.f].sh
      p == IF Audio(sh) THEN 1 ELSE e.p + 1
      sz == IF d.big = 1 /\ e.delta > 0 THEN e.delta ELSE d.size[Cls(sh, p)]
      t == Detach(s, e.f, p, sz)
      u == IF Audio(sh) THEN WriteC(t, e.f, e.p + 1, e.q + 1, e.b) ELSE WriteV(t, e.f, p, e.q + 1, e.b)
  IN s' = u /\ ChkUsed(e, u)
     /\ Rule("C09", e.delta < 0 \/ d.big = 0 \/ IF Private(s, e.f, p) THEN e.delta = 0 ELSE Bounds(Cls(sh, p), e.delta), "size of a private copy", 0)
PlanesOf(f) == LET x == s.fr[f] IN IF Audio(x.sh) THEN s.buf[x.b[1]].v ELSE [p \in 1..Len(x.b) |-> s.buf[x.b[p]].v]
Dump(e) ==
  /\ Rule("C07", e.pl = PlanesOf(e.f), "content of the planes", PlanesOf(e.f))
  /\ Rule("C07", DOMAIN e.pr = DOMAIN s.fr[e.f].pr /\ \A k \in DOMAIN e.pr : e.pr[k] = s.fr[e.f].pr[k], "properties", s.fr[e.f].pr)
  /\ UNCHANGED s
Key(e) == 10 * e.t + e.m
Step == LET e == T[l] IN
  IF e.op = "reset" THEN Reset(e)
  ELSE /\ UNCHANGED d
       /\ CASE e.op = "new" -> New(e)
            [] e.op = "new2" -> New2(e)
            [] e.op = "copy" -> LET t == CopyFrame(s, e.f, e.src) IN s' = t /\ ChkUsed(e, t)
            [] e.op = "write" -> Write(e)
            [] e.op = "pset" -> s' = SetProp(s, e.f, e.k, e.v, e.app = 1)
            [] e.op = "pdel" -> s' = DelProp(s, e.f, e.k)
            [] e.op = "pcopy" -> s' = CopyProps(s, e.f, e.src)
            [] e.op = "free" -> LET t == Release(s, e.f) IN s' = t /\ ChkUsed(e, t)
            [] e.op = "ref" -> s' = [s EXCEPT !.fr[e.f].refs = @ + 1]
            [] e.op = "mset" -> LET t == MapSet(s, Key(e), e.f, e.app = 1) IN s' = t /\ ChkUsed(e, t)
            [] e.op = "msetf" -> \* video and audio frames do not mix in one array
                 /\ Rule("C07", MapOf(s, Key(e)) # <<>> /\ Audio(s.fr[MapOf(s, Key(e))[1]].sh) # Audio(s.fr[e.f].sh), "storing a frame in a map failed", 0)
                 /\ ChkUsed(e, s) /\ UNCHANGED s
            [] e.op = "mclr" -> LET t == MapClear(s, Key(e)) IN s' = t /\ ChkUsed(e, t)
            [] e.op = "mcopy" -> LET t == MapCopy(s, Key(e), 10 * e.t + 1 - e.m) IN s' = t /\ ChkUsed(e, t)
            [] e.op = "rd" -> Rule("C07", e.v = PlanesOf(e.f)[e.p + 1], "content behind a read pointer", PlanesOf(e.f)) /\ UNCHANGED s
            [] e.op = "dump" -> Dump(e)
            [] e.op = "fin" -> Rule("C09", e.used = 0, "memory left after everything was freed", 0) /\ Rule("C09", e.ou = e.ou2, "another core's memory changed", e.ou) /\ UNCHANGED s
Init == l = 1 /\ s = Empty /\ d = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
