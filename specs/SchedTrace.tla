---------------------------- MODULE SchedTrace -----------------------------
(* What a log of a running core may look like (properties C01-C04; the final
   accounting of a session also serves C08 and C09).
   The log is written by the filters and the clients, outside the core's lock:
   the completion of an activation takes effect in the core some time after its
   "end" event and before the next event of the same thread.  The rules below
   only reject what no placement of those effects explains.
   Every rule names the properties it belongs to; FOCUS selects one of them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES
  l,       \* position in the log
  nd,      \* node table: mode, may cache, length
  live,    \* tok -> context that began and has not completed
  pend,    \* request id -> unanswered external request
  res,     \* <<node, frame>> -> set of frames produced for it so far
  run,     \* thread -> activation it is executing
  linger,  \* thread -> completion possibly not yet effective
  last,    \* thread -> position of its last event
  cb       \* threads executing a getFrameAsync callback
vars == <<l, nd, live, pend, res, run, linger, last, cb>>

Parallel == 0  ParallelRequests == 1  Unordered == 2  FrameState == 3

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Range(s)     == {s[j] : j \in 1..Len(s)}

Rule(props, b, what) ==
  IF b THEN TRUE
  ELSE IF Focus # "" /\ Focus \notin props THEN TRUE
  ELSE PrintT(<<"MISMATCH", l, what, T[l]>>) /\ FALSE

Valid(v, n) == n >= 0 /\ n < nd[v + 1].nf
Clamp(v, n) == IF n >= nd[v + 1].nf THEN nd[v + 1].nf - 1 ELSE n
Mode(v) == nd[v + 1].m
Caches(v) == nd[v + 1].c = 1
Of(v, n) == {t \in DOMAIN live : live[t].v = v /\ live[t].n = n}
PendOf(v, n) == {r \in DOMAIN pend : pend[r].v = v /\ pend[r].n = n}
Known(v, n) == Get(res, <<v, n>>, {})

\* could the input k = <<node, frame>> of waiting context w be available / have failed by now?
MayHave(w, k) == (\E a \in w.adm : a[1] = k) \/ (Caches(k[1]) /\ Known(k[1], k[2]) # {})
MayFail(w, k) == \E a \in w.fails : a[1] = k
Unserved(w, k) == w.st = "wait" /\ k \in w.reqs /\ k \notin w.sure

Reset(e) ==
  /\ nd' = e.nodes
  /\ live' = <<>> /\ pend' = <<>> /\ res' = <<>> /\ run' = <<>> /\ linger' = <<>> /\ last' = <<>> /\ cb' = {}

Touch(e) == /\ last' = Put(last, e.t, l)
            /\ linger' = IF e.t \in DOMAIN linger THEN Drop(linger, e.t) ELSE linger

Request(e) ==
  /\ Touch(e)
  /\ pend' = Put(pend, e.r, [v |-> e.v, n |-> e.n, at |-> l, us |-> {}, es |-> {}])
  /\ UNCHANGED <<nd, live, res, run, cb>>

\* which activations may run at the same time
Exclusive(e) ==
  LET others == {run[t] : t \in DOMAIN run \ {e.t}}
      here == {a \in others : a.v = e.v}
  IN CASE Mode(e.v) = Unordered  -> here = {}
       [] Mode(e.v) = FrameState -> /\ here = {}
                                    /\ \A t \in DOMAIN live : live[t].v = e.v => t = e.tok
       [] Mode(e.v) = ParallelRequests -> (e.ar # 0 /\ e.tok # 0) => ~\E a \in here : a.ar # 0 /\ a.tok # 0
       [] OTHER -> TRUE

BeginInitial(e) ==
  LET k == <<e.v, e.n>>
      ext == Cardinality(PendOf(e.v, e.n))
      int == IF \E t \in DOMAIN live : Unserved(live[t], k) THEN 1 ELSE 0
  IN /\ Rule({"C04"}, Valid(e.v, e.n), "a filter was asked for a frame outside its clip")
     /\ Rule({"C03"}, e.old = 0, "frameData was not null in the first activation")
     /\ Rule({"C03"}, ext + int > 0, "activation nobody asked for")
     /\ Rule({"C03"}, Cardinality(Of(e.v, e.n)) + 1 <= ext + int, "more activation sequences of a frame than consumers can account for")
     /\ live' = Put(live, e.tok, [v |-> e.v, n |-> e.n, at |-> l, st |-> "run", reqs |-> {}, sure |-> {}, adm |-> {}, fails |-> {}, upto |-> 0, en |-> 0, et |-> 0])

BeginFinal(e) ==
  IF e.tok \notin DOMAIN live \/ live[e.tok].st # "wait" \/ live[e.tok].v # e.v \/ live[e.tok].n # e.n
  THEN /\ Rule({"C03", "C04"}, e.ar = -1 /\ e.tok = 0 /\ ~Valid(e.v, e.n) /\ PendOf(e.v, e.n) # {},
               "second activation of a context that is not waiting for frames")
       /\ UNCHANGED live
  ELSE LET w == live[e.tok] IN
       /\ Rule({"C03"}, \A k \in w.reqs : MayHave(w, k) \/ MayFail(w, k), "second activation before all requested frames are done")
       /\ Rule({"C03", "C04"}, e.ar = 1 => \A k \in w.reqs : MayHave(w, k), "arAllFramesReady although a requested frame failed")
       /\ Rule({"C03", "C04"}, e.ar = -1 => \E k \in w.reqs : MayFail(w, k), "arError although no requested frame failed")
       /\ live' = [live EXCEPT ![e.tok].st = "run"]

Begin(e) ==
  /\ Touch(e)
  /\ Rule({"C02"}, Exclusive(e), "activation while another one excludes it")
  /\ IF e.ar = 0 THEN BeginInitial(e) ELSE BeginFinal(e)
  /\ run' = Put(run, e.t, [v |-> e.v, n |-> e.n, ar |-> e.ar, tok |-> e.tok])
  /\ UNCHANGED <<nd, pend, res, cb>>

\* a completion of (v,n): o is a frame id, or 0 for a failure with one of the messages ms
Deliver(lv, c, o, ms) ==
  LET k == <<c.v, c.n>>
      extPossible == \E r \in PendOf(c.v, c.n) : pend[r].at < c.at
  IN [t \in DOMAIN lv |->
        IF lv[t].st # "wait" \/ k \notin lv[t].reqs THEN lv[t]
        ELSE [lv[t] EXCEPT
               !.adm = IF o > 0 THEN @ \cup {<<k, o>>} ELSE @,
               !.fails = IF o = 0 THEN @ \cup {<<k, m>> : m \in ms} ELSE @,
               \* latched on for certain once registered, unless an external request ran this context
               !.sure = IF ~extPossible /\ Get(last, lv[t].et, 0) > lv[t].en THEN @ \cup {k} ELSE @]]
Answerable(c, o, ms) ==
  [r \in DOMAIN pend |->
     IF pend[r].v = c.v /\ pend[r].n = c.n /\ pend[r].at < c.at
     THEN [pend[r] EXCEPT !.us = IF o > 0 THEN @ \cup {o} ELSE @, !.es = IF o = 0 THEN @ \cup ms ELSE @]
     ELSE pend[r]]

EndWait(e, c) ==
  LET reqs == {<<q[1], Clamp(q[1], q[2])>> : q \in Range(e.rq)}
      lg == {linger[t] : t \in DOMAIN linger \ {e.t}}
      w == [c EXCEPT !.st = "wait", !.reqs = reqs, !.en = l, !.et = e.t,
                     !.adm = {<<g.k, g.u>> : g \in {x \in lg : x.k \in reqs /\ x.u > 0}},
                     !.fails = UNION {{<<g.k, m>> : m \in g.ms} : g \in {x \in lg : x.k \in reqs /\ x.u = 0}}]
  IN /\ live' = Put(live, e.tok, w)
     /\ linger' = IF e.t \in DOMAIN linger THEN Drop(linger, e.t) ELSE linger
     /\ UNCHANGED <<pend, res>>

EndDone(e, c, o, ms) ==
  LET k == <<c.v, c.n>> IN
  /\ live' = Drop(Deliver(live, c, o, ms), e.tok)
  /\ pend' = Answerable(c, o, ms)
  /\ res' = IF o > 0 THEN Put(res, k, Known(c.v, c.n) \cup {o}) ELSE res
  /\ linger' = Put(linger, e.t, [k |-> k, u |-> o, ms |-> ms])

\* every requested frame is handed out, is a frame of that clip and number, and nothing else is
GotRight(c, e) ==
  /\ \A g \in Range(e.got) :
       LET k == <<g[1], Clamp(g[1], g[2])>> IN
       /\ k \in c.reqs
       /\ \/ <<k, g[3]>> \in c.adm
          \/ Caches(k[1]) /\ g[3] \in Known(k[1], k[2])
  /\ \A g, h \in Range(e.got) : g[1] = h[1] /\ Clamp(g[1], g[2]) = Clamp(h[1], h[2]) => g[3] = h[3]

End(e) ==
  /\ last' = Put(last, e.t, l)
  /\ run' = Drop(run, e.t)
  /\ UNCHANGED <<nd, cb>>
  /\ IF e.tok \notin DOMAIN live
     THEN UNCHANGED <<live, pend, res>> /\ linger' = IF e.t \in DOMAIN linger THEN Drop(linger, e.t) ELSE linger
     ELSE LET c == live[e.tok]
              final == e.t \in DOMAIN run /\ run[e.t].ar # 0
              inh == {f[2] : f \in c.fails}
          IN /\ Rule({"C03", "C01"}, Len(e.got) > 0 => GotRight(c, e), "an input frame is not the one requested")
             /\ Rule({"C03"}, e.nul = 0, "a frame that was not requested or was released is available")
             /\ CASE e.res = "w" -> EndWait(e, c)
                  [] e.res = "f" -> EndDone(e, c, e.u, {})
                  [] OTHER -> EndDone(e, c, 0, IF e.msg # 0 THEN {e.msg} ELSE inh)

Reply(e) ==
  /\ Touch(e)
  /\ Rule({"C02"}, e.cb = 1 => cb = {}, "two getFrameAsync callbacks at the same time")
  /\ cb' = IF e.cb = 1 THEN cb \cup {e.t} ELSE cb
  /\ IF e.r \notin DOMAIN pend
     THEN Rule({"C01"}, FALSE, "reply to a request that is not pending") /\ UNCHANGED pend
     ELSE LET q == pend[e.r] IN
          /\ Rule({"C01"}, e.v = q.v /\ e.n = q.n, "reply for another frame than requested")
          /\ Rule({"C01"}, e.err = 0 <=> e.u # 0, "a reply must be either a frame or an error")
          /\ IF ~Valid(q.v, q.n)
             THEN Rule({"C01", "C04"}, e.u = 0 /\ e.err \in {-2, -4}, "a request outside the clip must fail with a message")
             ELSE IF e.u # 0
             THEN Rule({"C01", "C04"}, e.u \in q.us \/ (Caches(q.v) /\ e.u \in Known(q.v, q.n)), "reply with a frame that is not the requested one")
             ELSE Rule({"C01", "C04"}, e.err \in q.es \/ (e.err = -4 /\ q.es # {}), "reply with an error that no filter the frame depends on reported")
          /\ pend' = Drop(pend, e.r)
  /\ UNCHANGED <<nd, live, res, run>>

CallbackEnd(e) == Touch(e) /\ cb' = cb \ {e.t} /\ UNCHANGED <<nd, live, pend, res, run>>

Idle(e) ==
  /\ Rule({"C01"}, pend = <<>>, "a request was never answered")
  /\ Rule({"C01", "C03"}, live = <<>>, "a frame is still in progress although nothing is requested")
  /\ UNCHANGED <<nd, live, pend, res, run, linger, last, cb>>
Fin(e) ==
  /\ Rule({"C08"}, \A j \in 1..Len(e.frees) : e.frees[j] = 1, "every filter instance is freed exactly once")
  /\ Rule({"C08"}, e.order = 0, "a filter instance was freed while in use or kept when no longer used")
  /\ Rule({"C09"}, e.mem = 0, "frame memory is still accounted for after everything was released")
  /\ Rule({"C08", "C09"}, e.warn = 0, "the core warned about leftovers")
  /\ UNCHANGED <<nd, live, pend, res, run, linger, last, cb>>

Step == LET e == T[l] IN
  CASE e.op = "reset" -> Reset(e)
    [] e.op = "req"   -> Request(e)
    [] e.op = "begin" -> Begin(e)
    [] e.op = "end"   -> End(e)
    [] e.op = "rep"   -> Reply(e)
    [] e.op = "cbe"   -> CallbackEnd(e)
    [] e.op = "idle"  -> Idle(e)
    [] e.op = "fin"   -> Fin(e)

Init == /\ l = 1 /\ nd = <<>> /\ live = <<>> /\ pend = <<>> /\ res = <<>> /\ run = <<>> /\ linger = <<>> /\ last = <<>> /\ cb = {}
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
============================================================================
