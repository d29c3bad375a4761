---------------------------- MODULE FramesIterMC ----------------------------
(* The iterator of clip.frames(): a consumer thread and the threads that     *)
(* frames complete on share a window of requests.  Steps are what runs       *)
(* without letting another thread in: a request lets others run while it is  *)
(* being made, done callbacks run some time after the result is there, and   *)
(* the lock protects the window.  Broken: the iterator stops without taking  *)
(* the lock ("nolock"), a callback forgets the backlog ("backlog"), the      *)
(* result is taken in order of completion ("order").                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Prefetch, Backlog, Fails, Broken
VARIABLES st,        \* frame -> "no", "made" (being requested), "run", "ok", "err"
          cb,        \* frames whose done callback has not run yet
          known,     \* frames in the table the consumer looks into
          nxt, running, curr, finished, sidx, got,
          lock,      \* 0 free, "main", or the frame whose callback holds it
          mode,      \* consumer: "start", "wait", "taken", "yield", "closing", "drain", "closed"
          reason,    \* "", "end", "error", "early"
          copy       \* the frames the closing consumer waits for
vars == <<st, cb, known, nxt, running, curr, finished, sidx, got, lock, mode, reason, copy>>
F == 0..N - 1
Init ==
    /\ st = [f \in F |-> "no"] /\ cb = {} /\ known = {} /\ nxt = 0 /\ running = 0 /\ curr = 0
    /\ finished = FALSE /\ sidx = 0 /\ got = <<>> /\ lock = "free" /\ mode = "start" /\ reason = "" /\ copy = {}

CanRequest == ~finished /\ running < Prefetch /\ (curr < Backlog \/ Broken = "backlog")
(* the holder of the lock asks for the next frame, in two steps *)
Begin(who) ==
    /\ lock = who /\ CanRequest /\ ~\E f \in F : st[f] = "made"
    /\ IF nxt = N THEN finished' = TRUE /\ UNCHANGED <<st, nxt>>
       ELSE st' = [st EXCEPT ![nxt] = "made"] /\ nxt' = nxt + 1 /\ UNCHANGED finished
    /\ UNCHANGED <<cb, known, running, curr, sidx, got, lock, mode, reason, copy>>
End(who) ==
    /\ lock = who
    /\ \E f \in F : /\ st[f] = "made"
                    /\ st' = [st EXCEPT ![f] = "run"] /\ known' = known \union {f}
    /\ running' = running + 1 /\ curr' = curr + 1
    /\ UNCHANGED <<cb, nxt, finished, sidx, got, lock, mode, reason, copy>>
Unlock(who) == lock = who /\ (~CanRequest) /\ ~\E f \in F : st[f] = "made"

Complete(f) ==
    /\ st[f] = "run" /\ st' = [st EXCEPT ![f] = IF f \in Fails THEN "err" ELSE "ok"] /\ cb' = cb \union {f}
    /\ UNCHANGED <<known, nxt, running, curr, finished, sidx, got, lock, mode, reason, copy>>
CallbackStart(f) ==
    /\ f \in cb /\ lock = "free" /\ cb' = cb \ {f} /\ running' = running - 1
    /\ IF finished THEN UNCHANGED <<lock, finished>>
       ELSE IF st[f] = "err" THEN finished' = TRUE /\ UNCHANGED lock
       ELSE lock' = ToString(f) /\ UNCHANGED finished
    /\ UNCHANGED <<st, known, nxt, curr, sidx, got, mode, reason, copy>>
CallbackEnd(f) == Unlock(ToString(f)) /\ lock' = "free" /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, mode, reason, copy>>

MainLock ==     \* at the start, and after taking a frame
    /\ mode \in {"start", "taken"} /\ lock = "free" /\ lock' = "main" /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, mode, reason, copy>>
MainUnlock ==
    /\ mode \in {"start", "taken"} /\ Unlock("main") /\ lock' = "free" /\ mode' = (IF mode = "start" THEN "wait" ELSE "yield")
    /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, reason, copy>>
Index == IF Broken = "order" /\ \E f \in known : st[f] = "ok" THEN CHOOSE f \in known : st[f] = "ok" ELSE sidx
Take ==
    /\ mode = "wait" /\ (~finished \/ curr > 0 \/ running > 0) /\ Index \in known
    /\ CASE st[Index] = "ok" -> /\ got' = Append(got, Index) /\ known' = known \ {Index} /\ curr' = curr - 1 /\ sidx' = sidx + 1 /\ mode' = "taken" /\ UNCHANGED reason
         [] st[Index] = "err" -> reason' = "error" /\ mode' = "closing" /\ UNCHANGED <<got, known, curr, sidx>>
         [] OTHER -> FALSE
    /\ UNCHANGED <<st, cb, nxt, running, finished, lock, copy>>
Out == mode = "wait" /\ finished /\ curr = 0 /\ running = 0 /\ reason' = "end" /\ mode' = "closing"
       /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, lock, copy>>
Resume == mode = "yield" /\ mode' = "wait" /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, lock, reason, copy>>
Early == mode = "yield" /\ mode' = "closing" /\ reason' = "early" /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, lock, copy>>
Close ==
    /\ mode = "closing" /\ (lock = "free" \/ Broken = "nolock") /\ finished' = TRUE /\ mode' = "drain" /\ copy' = known
    /\ UNCHANGED <<st, cb, known, nxt, running, curr, sidx, got, lock, reason>>
Drain == mode = "drain" /\ (\A f \in copy : st[f] \in {"ok", "err"}) /\ mode' = "closed"
         /\ UNCHANGED <<st, cb, known, nxt, running, curr, finished, sidx, got, lock, reason, copy>>
Done == mode = "closed" /\ cb = {} /\ lock = "free" /\ UNCHANGED vars

Next ==
    \/ MainLock \/ MainUnlock \/ Take \/ Out \/ Resume \/ Early \/ Close \/ Drain \/ Done
    \/ Begin("main") \/ End("main")
    \/ \E f \in F : Complete(f) \/ CallbackStart(f) \/ CallbackEnd(f) \/ Begin(ToString(f)) \/ End(ToString(f))
Spec == Init /\ [][Next]_vars

FirstFail == IF Fails = {} THEN N ELSE CHOOSE f \in Fails : \A g \in Fails : f <= g
Ascending == \A i \in 1..Len(got) : got[i] = i - 1
Complete_ == /\ (mode = "closed" /\ reason = "end" => Len(got) = N)
             /\ (mode = "closed" /\ reason = "error" => Len(got) = FirstFail)
             /\ Len(got) <= FirstFail
Window == /\ Cardinality({f \in F : st[f] \in {"made", "run"}}) <= Prefetch
          /\ nxt - Len(got) <= Backlog
NothingRuns == mode = "closed" => \A f \in F : st[f] \notin {"made", "run"}
=============================================================================
