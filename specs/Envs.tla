-------------------------------- MODULE Envs --------------------------------
(* Environments of the Python module: the policy says which one is current,  *)
(* use() switches and restores, objects belong to the environment they were  *)
(* made in, and destroying an environment runs its callbacks and ends its    *)
(* objects.                                                                  *)
(*   s.env[e]  st: "alive" | "dying" | "dead", cbs: callbacks registered,    *)
(*             todo: those left to run while dying, outs, locals, core, flags*)
(*   s.cur[t]  what the policy holds for a thread (slot 0: for all)          *)
(*   s.stack[t] what use() will restore                                      *)
(*   s.obj[o]  env: of the time it was made, core: whose core it uses,       *)
(*             of: the object it is a view of (itself, or a frame), open: not   *)
(*             closed                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Set(f, k, v) == (k :> v) @@ f
NewEnv(fl) == [st |-> "alive", cbs |-> <<>>, todo |-> <<>>, outs |-> <<>>, loc |-> <<>>, core |-> 0, flags |-> fl, log |-> 0]
Slot(s, t) == IF s.local THEN t ELSE 0
Raw(s, t) == IF Slot(s, t) \in DOMAIN s.cur THEN s.cur[Slot(s, t)] ELSE 0
Lives(s, e) == e # 0 /\ e \in DOMAIN s.env /\ s.env[e].st # "dead"
Cur(s, t) == IF Lives(s, Raw(s, t)) THEN Raw(s, t) ELSE 0
SetCur(s, t, e) == [s EXCEPT !.cur = Set(s.cur, Slot(s, t), IF Lives(s, e) THEN e ELSE 0)]
StackOf(s, t) == IF t \in DOMAIN s.stack THEN s.stack[t] ELSE <<>>

(* ------------------------------------------------------------------ use -- *)
Enter(s, t, e) == [SetCur(s, t, e) EXCEPT !.stack = Set(s.stack, t, <<Cur(s, t)>> \o StackOf(s, t))]
Exit(s, t) == [SetCur(s, t, Head(StackOf(s, t))) EXCEPT !.stack = Set(s.stack, t, Tail(StackOf(s, t)))]

(* -------------------------------------------------------------- destroy -- *)
Destroy(s, t, e) ==       \* the callbacks run in the environment
    [SetCur(s, t, e) EXCEPT !.env[e].st = "dying", !.env[e].todo = s.env[e].cbs, !.env[e].cbs = <<>>,
                            !.stack = Set(s.stack, t, <<Cur(s, t)>> \o StackOf(s, t))]
Called(s, e) == [s EXCEPT !.env[e].todo = Tail(@)]
Gone(s, t, e) == LET r == Exit(s, t) IN [r EXCEPT !.env[e].st = "dead", !.env[e].outs = <<>>, !.env[e].loc = <<>>]

(* -------------------------------------------------------------- objects -- *)
Made(s, o, e, c) == [s EXCEPT !.obj = Set(s.obj, o, [env |-> e, core |-> c, of |-> o, open |-> TRUE])]
(* what has to work, and what has to fail: in between, an object made in one *)
(* environment with the core of another, or used while another is current    *)
Usable(s, t, o) == \A x \in {s.obj[o]} : x.open /\ Lives(s, x.env) /\ x.env = x.core /\ Cur(s, t) = x.env
Unusable(s, o) == \A x \in {s.obj[o]} : ~x.open \/ (x.env # 0 /\ ~Lives(s, x.env)) \/ (x.core # 0 /\ ~Lives(s, x.core))
=============================================================================
