------------------------------ MODULE SchedMC ------------------------------
(* Design model of the core's scheduler: task list, frame contexts with notify
   lists, filter modes, the worker threads with parking and wakeups, the
   memory gate (parking, admission control, pipeline flush) and blocking
   requests made from inside a filter call.  Every step is one critical section
   of the core.  Checked for C01 (all requests answered, once), C02 (modes) and
   C03 (activation order, one sequence per shared frame), with deadlock checking. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NThreads, MaxThreads,   \* threads that can ever exist / limit on active ones
          Mode,        \* sequence: filter mode of each node
          Reqs,        \* sequence: for each node the set of nodes it requests frame n from
          Heavy,       \* nodes whose calls are predicted to need much memory
          Nested,      \* <<node, node>>: frame 1 of the first makes a blocking request to the second (or <<0,0>>)
          Fails,       \* set of nodes that report an error in their last activation
          Ext,         \* sequence of external requests <<node, frame>>
          OverBudget,  \* how often the memory state may change
          CountBlocked,\* TRUE: threads blocked in a nested request count as processing (defect)
          ParkNested,  \* TRUE: nested requests are parked during a flush as well (defect)
          NoDedup,     \* TRUE: no sharing of contexts (defect)
          WakeOnQueue  \* FALSE: queueing a task wakes nobody (defect)
Parallel == 0  ParallelRequests == 1  Unordered == 2  FrameState == 3
Thr == 1..NThreads
Nodes == 1..Len(Mode)

VARIABLES tasks, alt, ctx, nid, th, active, serial, sowner, over, toggles, flush, replies, sent, begun
vars == <<tasks, alt, ctx, nid, th, active, serial, sowner, over, toggles, flush, replies, sent, begun>>
(* ctx: id -> [v, n, first, ext, err, left, notify, res, nest]   ext: 0 internal, >0 request number, -t nested request of thread t
   th[t]: [pc, c]  pc: none scan run nested resumed post ret wait woken *)

Idle == {t \in Thr : th[t].pc \in {"wait", "woken"}}
All  == {t \in Thr : th[t].pc # "none"}
Processing == {t \in Thr : th[t].pc \in (IF CountBlocked THEN {"run", "resumed", "nested"} ELSE {"run", "resumed"})}

\* wakeThread on (th, active): spawn, notify one waiting thread, or nothing
WakeSet(h, a) ==
  IF a < MaxThreads /\ ~(over /\ a > 0)
  THEN IF {t \in Thr : h[t].pc \in {"wait", "woken"}} = {}
       THEN IF \E t \in Thr : h[t].pc = "none"
            THEN LET t == CHOOSE t \in Thr : h[t].pc = "none" IN {<<[h EXCEPT ![t] = [pc |-> "scan", c |-> 0]], a + 1>>}
            ELSE {<<h, a>>}
       ELSE IF {t \in Thr : h[t].pc = "wait"} = {} THEN {<<h, a>>}
            ELSE {<<[h EXCEPT ![t].pc = "woken"], a>> : t \in {t \in Thr : h[t].pc = "wait"}}
  ELSE {<<h, a>>}
RECURSIVE WakeN(_, _, _)
WakeN(h, a, k) == IF k = 0 \/ ~WakeOnQueue THEN {<<h, a>>} ELSE UNION {WakeN(x[1], x[2], k - 1) : x \in WakeSet(h, a)}

InternalFor(cx, v, n) == {i \in DOMAIN cx : cx[i].ext = 0 /\ cx[i].v = v /\ cx[i].n = n /\ cx[i].res = "no"}
NewCtx(v, n, e) == [v |-> v, n |-> n, first |-> TRUE, ext |-> e, err |-> FALSE, left |-> 0, notify |-> {}, res |-> "no"]

Init == /\ tasks = <<>> /\ alt = <<>> /\ ctx = <<>> /\ nid = 1
        /\ th = [t \in Thr |-> [pc |-> "none", c |-> 0]] /\ active = 0
        /\ serial = [v \in Nodes |-> 0] /\ sowner = [v \in Nodes |-> 0]
        /\ over = FALSE /\ toggles = 0 /\ flush = FALSE
        /\ replies = [r \in 1..Len(Ext) |-> 0] /\ sent = 0 /\ begun = {}

AddTask(c, front) == IF front THEN <<c>> \o tasks ELSE Append(tasks, c)

\* a client thread submits the next external request
Submit ==
  /\ sent < Len(Ext)
  /\ sent' = sent + 1
  /\ ctx' = (nid :> NewCtx(Ext[sent + 1][1], Ext[sent + 1][2], sent + 1)) @@ ctx
  /\ nid' = nid + 1
  /\ IF flush THEN alt' = Append(alt, nid) /\ UNCHANGED <<tasks, th, active>>
     ELSE /\ tasks' = Append(tasks, nid) /\ UNCHANGED alt
          /\ \E w \in WakeN(th, active, 1) : th' = w[1] /\ active' = w[2]
  /\ UNCHANGED <<serial, sowner, over, toggles, flush, replies, begun>>

Toggle == /\ toggles < OverBudget /\ toggles' = toggles + 1 /\ over' = ~over
          /\ UNCHANGED <<tasks, alt, ctx, nid, th, active, serial, sowner, flush, replies, sent, begun>>
\* usage stayed over the limit for too long
AskFlush == /\ over /\ ~flush /\ toggles < OverBudget /\ toggles' = toggles + 1 /\ flush' = TRUE
            /\ \E t \in Thr : th[t].pc = "post"
            /\ UNCHANGED <<tasks, alt, ctx, nid, th, active, serial, sowner, over, replies, sent, begun>>

NeedsSerial(c) == LET m == Mode[ctx[c].v] IN m \in {Unordered, FrameState} \/ (m = ParallelRequests /\ ~ctx[c].first)
Runnable(c) ==
  LET v == ctx[c].v IN
  /\ ~(v \in Heavy /\ over /\ Processing # {})
  /\ NeedsSerial(c) => serial[v] = 0
  /\ Mode[v] = FrameState => sowner[v] \in {0, c}
\* only the first task of a node is tried, except for frame state filters
Eligible(j) == LET v == ctx[tasks[j]].v IN
  /\ Runnable(tasks[j])
  /\ Mode[v] # FrameState => ~\E k \in 1..(j - 1) : ctx[tasks[k]].v = v

RemoveAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

Park(t, h) ==       \* the end of the worker loop: give up the slot and wait
  LET a == active - 1
      idleNow == {x \in Thr : h[x].pc \in {"wait", "woken"}} \cup {t}
  IN IF idleNow = {x \in Thr : h[x].pc # "none"} /\ flush
     THEN /\ flush' = FALSE
          /\ tasks' = alt /\ alt' = tasks     \* swap
          /\ th' = [x \in Thr |-> IF x = t THEN [pc |-> "scan", c |-> 0] ELSE IF h[x].pc = "wait" THEN [pc |-> "woken", c |-> 0] ELSE h[x]]
          /\ active' = active
     ELSE /\ th' = [h EXCEPT ![t] = [pc |-> "wait", c |-> 0]] /\ active' = a
          /\ UNCHANGED <<flush, tasks, alt>>

Scan(t) ==
  /\ th[t].pc = "scan"
  /\ LET E == {j \in 1..Len(tasks) : Eligible(j)} IN
     IF E = {}
     THEN Park(t, th) /\ UNCHANGED <<ctx, nid, serial, sowner, over, toggles, replies, sent, begun>>
     ELSE LET j == CHOOSE x \in E : \A y \in E : x <= y
              c == tasks[j]
              v == ctx[c].v
              ini == ctx[c].first
          IN /\ tasks' = RemoveAt(tasks, j)
             /\ serial' = IF NeedsSerial(c) THEN [serial EXCEPT ![v] = t] ELSE serial
             /\ sowner' = IF Mode[v] = FrameState THEN [sowner EXCEPT ![v] = c] ELSE sowner
             /\ ctx' = [ctx EXCEPT ![c].first = FALSE]
             /\ th' = [th EXCEPT ![t] = [pc |-> "run", c |-> c]]
             /\ begun' = begun \cup {<<c, ini>>}
             /\ Assert(<<c, ini>> \notin begun, "C03: an activation ran twice")
             /\ UNCHANGED <<alt, nid, active, over, toggles, flush, replies, sent>>

\* the filter call makes a blocking request
StartNested(t) ==
  /\ th[t].pc = "run" /\ Nested[1] = ctx[th[t].c].v /\ ctx[th[t].c].n = 1
  /\ <<th[t].c, FALSE>> \notin begun          \* in the first activation
  /\ ctx' = (nid :> NewCtx(Nested[2], 1, 0 - t)) @@ ctx
  /\ nid' = nid + 1
  /\ LET h == [th EXCEPT ![t].pc = "nested"] IN
     IF flush /\ ParkNested
     THEN alt' = Append(alt, nid) /\ tasks' = tasks /\ th' = h /\ active' = active - 1
     ELSE /\ tasks' = Append(tasks, nid) /\ alt' = alt
          /\ \E w \in WakeN(h, active - 1, 1) : th' = w[1] /\ active' = w[2]
  /\ UNCHANGED <<serial, sowner, over, toggles, flush, replies, sent, begun>>

\* the call ends: decide its outcome and release the per instance lock
EndCall(t) ==
  LET c == th[t].c
      v == ctx[c].v
      second == <<c, FALSE>> \in begun
      out == IF ctx[c].err \/ (v \in Fails /\ (second \/ Reqs[v] = {})) THEN "err"
             ELSE IF second \/ Reqs[v] = {} THEN "ok" ELSE "no"
  IN /\ \/ th[t].pc = "resumed"
        \/ th[t].pc = "run" /\ ~(Nested[1] = v /\ ctx[c].n = 1 /\ ~second)
     /\ ctx' = [ctx EXCEPT ![c].res = out, ![c].err = (out = "err")]
     /\ serial' = IF serial[v] = t THEN [serial EXCEPT ![v] = 0] ELSE serial
     /\ sowner' = IF out # "no" /\ sowner[v] = c THEN [sowner EXCEPT ![v] = 0] ELSE sowner
     /\ th' = [th EXCEPT ![t].pc = "post"]
     /\ UNCHANGED <<tasks, alt, nid, active, over, toggles, flush, replies, sent, begun>>

\* afterwards, under the lock: register requests or notify the waiting contexts
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Post(t) ==
  /\ th[t].pc = "post"
  /\ LET c == th[t].c
         k == ctx[c]
         h0 == [th EXCEPT ![t].pc = IF k.ext # 0 /\ k.res # "no" THEN "ret" ELSE "loop"]
     IN IF k.res = "no"
        THEN LET want == Reqs[k.v]
                 old == IF NoDedup THEN {} ELSE {w \in want : InternalFor(ctx, w, k.n) # {}}
                 fresh == SeqOf(want \ old)
                 attached == [i \in DOMAIN ctx |-> IF ctx[i].ext = 0 /\ ctx[i].res = "no" /\ ctx[i].v \in old /\ ctx[i].n = k.n
                                                   THEN [ctx[i] EXCEPT !.notify = @ \cup {c}] ELSE ctx[i]]
                 new == [i \in nid..(nid + Len(fresh) - 1) |-> [NewCtx(fresh[i - nid + 1], k.n, 0) EXCEPT !.notify = {c}]]
             IN /\ ctx' = [(new @@ attached) EXCEPT ![c].left = Cardinality(want)]
                /\ nid' = nid + Len(fresh)
                /\ tasks' = [i \in 1..Len(fresh) |-> nid + i - 1] \o tasks
                /\ \E w \in WakeN(h0, active, Len(fresh)) : th' = w[1] /\ active' = w[2]
        ELSE LET woke == {i \in k.notify : ctx[i].left = 1} IN
             /\ ctx' = [i \in DOMAIN ctx |-> IF i \in k.notify THEN [ctx[i] EXCEPT !.left = @ - 1, !.err = @ \/ k.res = "err"] ELSE ctx[i]]
             /\ tasks' = SeqOf(woke) \o tasks
             /\ UNCHANGED nid
             /\ \E w \in WakeN(h0, active, Cardinality(woke)) : th' = w[1] /\ active' = w[2]
  /\ UNCHANGED <<alt, serial, sowner, over, toggles, flush, replies, sent, begun>>

\* the reply, made without the lock
Return(t) ==
  /\ th[t].pc = "ret"
  /\ LET e == ctx[th[t].c].ext IN
     IF e > 0 THEN /\ replies' = [replies EXCEPT ![e] = @ + 1]
                   /\ th' = [th EXCEPT ![t].pc = "loop"] /\ UNCHANGED active
              ELSE /\ th' = [th EXCEPT ![t].pc = "back", ![0 - e].pc = "resumed"] /\ UNCHANGED <<replies, active>>
  /\ UNCHANGED <<tasks, alt, ctx, nid, serial, sowner, over, toggles, flush, sent, begun>>
Back(t) ==   \* the slot of the thread that was blocked is taken again
  /\ th[t].pc = "back" /\ th' = [th EXCEPT ![t].pc = "loop"] /\ active' = active + 1
  /\ UNCHANGED <<tasks, alt, ctx, nid, serial, sowner, over, toggles, flush, replies, sent, begun>>

Loop(t) ==
  /\ th[t].pc = "loop"
  /\ IF active > MaxThreads \/ (over /\ active > 1)
     THEN Park(t, th)
     ELSE th' = [th EXCEPT ![t] = [pc |-> "scan", c |-> 0]] /\ UNCHANGED <<active, flush, tasks, alt>>
  /\ UNCHANGED <<ctx, nid, serial, sowner, over, toggles, replies, sent, begun>>

Wake(t) ==
  /\ th[t].pc = "woken"
  /\ IF active >= MaxThreads THEN th' = [th EXCEPT ![t].pc = "wait"] /\ UNCHANGED active
     ELSE th' = [th EXCEPT ![t] = [pc |-> "scan", c |-> 0]] /\ active' = active + 1
  /\ UNCHANGED <<tasks, alt, ctx, nid, serial, sowner, over, toggles, flush, replies, sent, begun>>

Done == sent = Len(Ext) /\ \A r \in 1..Len(Ext) : replies[r] = 1
Finished == Done /\ (\A t \in Thr : th[t].pc \in {"none", "wait"}) /\ UNCHANGED vars
Worker(t) == Scan(t) \/ StartNested(t) \/ EndCall(t) \/ Post(t) \/ Return(t) \/ Back(t) \/ Loop(t) \/ Wake(t)
Next == Submit \/ Toggle \/ AskFlush \/ (\E t \in Thr : Worker(t)) \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Submit) /\ \A t \in Thr : WF_vars(Worker(t))

AtMostOnce == \A r \in 1..Len(Ext) : replies[r] <= 1
Running(v) == {t \in Thr : th[t].pc \in {"run", "nested", "resumed"} /\ ctx[th[t].c].v = v}
Modes == \A v \in Nodes :
  /\ Mode[v] \in {Unordered, FrameState} => Cardinality(Running(v)) <= 1
  /\ Mode[v] = ParallelRequests => Cardinality({t \in Running(v) : <<th[t].c, FALSE>> \in begun}) <= 1
  /\ Mode[v] = FrameState => Cardinality({c \in DOMAIN ctx : ctx[c].v = v /\ ~ctx[c].first /\ ctx[c].res = "no"}) <= 1
Protocol == \A t \in Thr : th[t].pc = "run" => ctx[th[t].c].left = 0
Shared == \A i, j \in DOMAIN ctx : (i # j /\ ctx[i].ext = 0 /\ ctx[j].ext = 0 /\ ctx[i].res = "no" /\ ctx[j].res = "no") => <<ctx[i].v, ctx[i].n>> # <<ctx[j].v, ctx[j].n>>
Slots == active = Cardinality({t \in Thr : th[t].pc \in {"scan", "run", "post", "ret", "loop"}})
                + Cardinality({t \in Thr : th[t].pc = "back"}) + Cardinality({t \in Thr : th[t].pc = "resumed"})
                - Cardinality({t \in Thr : th[t].pc = "back"})
\* an error reaches exactly the contexts that depend on it
Errors == \A c \in DOMAIN ctx : ctx[c].res = "ok" => ctx[c].v \notin Fails
Answered == <>Done
View == <<tasks, alt, [c \in DOMAIN ctx |-> ctx[c]], th, active, serial, sowner, over, toggles, flush, replies, sent>>
============================================================================
