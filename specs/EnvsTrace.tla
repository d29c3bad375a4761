----------------------------- MODULE EnvsTrace ------------------------------
(* Histories recorded from the real Python module against Envs.              *)
EXTENDS Envs, Json, IOUtils, TLCExt, SequencesExt
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, s
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE
Ok(o) == o.r = "ok"
Sees(st, o) == Rule(o.cur = Cur(st, o.t), "current environment", Cur(st, o.t))
(* checks: whether the policy itself never names a destroyed environment     *)
Empty(local) == [local |-> local, checks |-> TRUE, env |-> <<>>, cur |-> <<>>, stack |-> <<>>, obj |-> <<>>]
E(o) == s.env[o.cur]

UseSteps(o) ==
    CASE o.e = "enter" -> Sees(Enter(s, o.t, o.env), o) /\ s' = Enter(s, o.t, o.env)
      [] o.e = "exit" -> Sees(Exit(s, o.t), o) /\ s' = Exit(s, o.t)
      [] o.e = "create" -> Sees(s, o) /\ Rule(o.env \notin DOMAIN s.env, "new environment", 0) /\ s' = [s EXCEPT !.env = Set(s.env, o.env, NewEnv(o.flags))]
      [] o.e = "destroy" -> s' = (IF s.env[o.env].st = "alive" THEN Destroy(s, o.t, o.env)
                                  ELSE [s EXCEPT !.stack = Set(s.stack, o.t, <<0 - 1>> \o StackOf(s, o.t))])   \* no effect, or refused
      [] o.e = "gone" ->
           IF Head(StackOf(s, o.t)) = 0 - 1
           THEN \A b \in {[s EXCEPT !.stack = Set(s.stack, o.t, Tail(StackOf(s, o.t)))]} : Sees(b, o) /\ s' = b
                   /\ Rule(s.env[o.env].st = "dead" => (Ok(o) /\ ~o.alive /\ ~o.known), "destroyed again", 0)
           ELSE \A b \in {Gone(s, o.t, o.env)} :
                   /\ Rule(s.env[o.env].todo = <<>>, "callbacks that have not run", s.env[o.env].todo)
                   /\ Rule(Ok(o) /\ ~o.alive /\ ~o.known, "destroyed", o.r)
                   /\ Sees(b, o) /\ s' = b
      [] o.e = "cb" ->
           /\ Rule(s.env[o.env].st = "dying" /\ s.env[o.env].todo # <<>> /\ Head(s.env[o.env].todo) = o.cb, "callback", s.env[o.env])
           /\ Rule(o.cur = o.env, "callbacks run in their environment", o.env)
           /\ s' = Called(s, o.env)
      [] o.e = "reg" ->
           /\ Sees(s, o)
           /\ IF o.cur = 0 THEN Rule(~Ok(o), "no environment", o) /\ UNCHANGED s
              ELSE IF E(o).st = "dying" THEN Rule(~Ok(o), "being destroyed", o) /\ UNCHANGED s
              ELSE Rule(Ok(o), "registered", o) /\ s' = [s EXCEPT !.env[o.cur].cbs = Append(@, o.cb)]
      [] o.e = "unreg" ->
           /\ Sees(s, o)
           /\ IF o.cur = 0 \/ o.cb = 0 THEN Rule(~Ok(o), "not registered", o) /\ UNCHANGED s
              ELSE IF E(o).st = "dying" THEN Rule(~Ok(o), "being destroyed", o) /\ UNCHANGED s
              ELSE Rule(Ok(o), "unregistered", o) /\ s' = [s EXCEPT !.env[o.cur].cbs = SelectSeq(@, LAMBDA c : c # o.cb)]

CoreOf(o) == {e \in DOMAIN s.env : s.env[e].core = o.core}
Objects(o) ==
    CASE o.e = "core" ->
           /\ Sees(s, o)
           /\ IF o.cur = 0 THEN Rule(~Ok(o), "no environment", o) /\ UNCHANGED s
              ELSE /\ Rule(Ok(o), "the environment has a core", o)
                   /\ Rule(IF E(o).core = 0 THEN CoreOf(o) = {} ELSE o.core = E(o).core, "core", E(o).core)
                   /\ Rule(o.flags = E(o).flags /\ o.same, "flags", E(o).flags)
                   /\ s' = [Made(s, o.o, o.cur, o.cur) EXCEPT !.env[o.cur].core = o.core]
      [] o.e = "make" ->
           /\ Sees(s, o)
           /\ \A need \in {IF o.src = 0 THEN o.cur # 0 ELSE Usable(s, o.t, o.src)} : \A no \in {IF o.src = 0 THEN o.cur = 0 ELSE Unusable(s, o.src)} :
                /\ Rule(need => Ok(o), "works", o)
                /\ Rule(no => ~Ok(o), "must not work", IF o.src = 0 THEN 0 ELSE s.obj[o.src])
                /\ s' = IF ~Ok(o) THEN s
                        ELSE IF o.src = 0 THEN Made(s, o.o, o.cur, o.cur)
                        ELSE IF o.kind \in {"fprops", "wprops", "func", "plugin"} THEN [s EXCEPT !.obj = Set(s.obj, o.o, s.obj[o.src])]
                        ELSE Made(s, o.o, o.cur, s.obj[o.src].core)
      [] o.e = "use" ->
           /\ Sees(s, o)
           /\ Rule(Usable(s, o.t, o.o) => Ok(o), "works", s.obj[o.o])
           /\ Rule(Unusable(s, o.o) => ~Ok(o), "must not work", s.obj[o.o])
           /\ UNCHANGED s
      [] o.e = "close" ->
           /\ Rule(Ok(o) /\ o.closed, "closed", 0)
           /\ s' = [s EXCEPT !.obj = [x \in DOMAIN s.obj |-> IF s.obj[x].of = o.o THEN [s.obj[x] EXCEPT !.open = FALSE] ELSE s.obj[x]]]
      [] o.e = "out" ->
           /\ Sees(s, o)
           /\ IF o.cur = 0 THEN Rule(~Ok(o) \/ (~s.checks /\ o.got = <<>>), "no environment", o) /\ UNCHANGED s
              ELSE CASE o.what = "get" ->
                          /\ Rule(Ok(o) /\ Len(o.got) = Cardinality(DOMAIN E(o).outs)
                                  /\ \A i \in 1..Len(o.got) : o.got[i][1] \in DOMAIN E(o).outs /\ (E(o).outs[o.got[i][1]] = o.got[i][2] \/ o.got[i][2] = 0 - 1), "outputs", E(o).outs)
                          /\ UNCHANGED s
                     [] o.what = "clear" -> Rule(Ok(o), "cleared", o) /\ s' = [s EXCEPT !.env[o.cur].outs = [k \in DOMAIN E(o).outs \ {o.i} |-> E(o).outs[k]]]
                     [] o.what = "all" -> Rule(Ok(o), "cleared", o) /\ s' = [s EXCEPT !.env[o.cur].outs = <<>>]
                     [] OTHER ->
                          /\ Rule(Usable(s, o.t, o.o) => Ok(o), "works", s.obj[o.o])
                          /\ Rule(Unusable(s, o.o) => ~Ok(o), "must not work", s.obj[o.o])
                          /\ s' = IF Ok(o) THEN [s EXCEPT !.env[o.cur].outs = Set(E(o).outs, o.i, o.o)] ELSE s

Others(o) ==
    CASE o.e = "local" ->
           /\ Sees(s, o)
           /\ IF o.cur = 0 THEN Rule(~Ok(o) /\ (s.checks => o.r # "none"), "no environment", o) /\ UNCHANGED s
              ELSE \A has \in {o.k \in DOMAIN E(o).loc} :
                 CASE o.what = "set" -> Rule(Ok(o), "set", o) /\ s' = [s EXCEPT !.env[o.cur].loc = Set(E(o).loc, o.k, o.v)]
                   [] o.what = "get" -> Rule(IF has THEN Ok(o) /\ o.got = E(o).loc[o.k] ELSE o.r = "none", "value of the environment", has) /\ UNCHANGED s
                   [] OTHER -> Rule(IF has THEN Ok(o) ELSE o.r = "none", "deleted", has)
                               /\ s' = [s EXCEPT !.env[o.cur].loc = [k \in DOMAIN E(o).loc \ {o.k} |-> E(o).loc[k]]]
      [] o.e = "logger" ->
           /\ Rule(Ok(o) = Lives(s, o.env), "logger of an environment", Lives(s, o.env))
           /\ s' = IF Ok(o) THEN [s EXCEPT !.env[o.env].log = o.lg] ELSE s
      [] o.e = "log" ->
           /\ Sees(s, o)
           /\ IF o.cur = 0 THEN Rule(~Ok(o) /\ o.got = <<>>, "no environment", o)
              ELSE Rule(Ok(o) /\ o.got = (IF E(o).log = 0 THEN <<>> ELSE <<E(o).log>>), "logger", E(o).log)
           /\ UNCHANGED s
      [] o.e = "eval" ->
           /\ Sees(s, o)
           /\ Rule(\A i \in 1..Len(o.seen) : o.seen[i] = o.cur, "functions run in their environment", o.cur)
           /\ Rule(Usable(s, o.t, o.o) => Ok(o) /\ o.seen # <<>>, "works", o)
           /\ Rule(o.after = Cur(s, o.t), "current environment", Cur(s, o.t))
           /\ UNCHANGED s
      [] o.e = "back" -> Rule(o.want = o.got, "callback in the environment of the request", o.want) /\ UNCHANGED s
      [] o.e = "stale" -> Sees(s, o) /\ Rule(~Ok(o), "only the holder of the policy", o.what) /\ UNCHANGED s
      [] o.e = "about" ->
           /\ Sees(s, o)
           /\ Rule(o.alive = Lives(s, o.env) /\ o.known = Lives(s, o.env) /\ ~o.single /\ o.eq, "about an environment", s.env[o.env].st)
           /\ Rule(Lives(s, o.env) => o.active = (Cur(s, o.t) = o.env), "active", Cur(s, o.t))
           /\ UNCHANGED s
      [] o.e = "unregister" ->
           s' = [s EXCEPT !.env = [e \in DOMAIN s.env |-> IF s.env[e].st = "alive" THEN [s.env[e] EXCEPT !.st = "dying", !.todo = s.env[e].cbs] ELSE s.env[e]]]
      [] o.e = "unregistered" ->
           /\ Rule(Ok(o) /\ ~o.has /\ o.cleared = 1, "unregistered", o)
           /\ Rule(\A e \in DOMAIN s.env : s.env[e].todo = <<>>, "callbacks that have not run", {e \in DOMAIN s.env : s.env[e].todo # <<>>})
           /\ s' = [s EXCEPT !.env = [e \in DOMAIN s.env |-> [s.env[e] EXCEPT !.st = "dead"]]]

Do(o) ==
    CASE o.e = "start" -> s' = Empty(TRUE)
      [] o.e = "policy" -> s' = [s EXCEPT !.local = o.local, !.checks = o.checks, !.cur = <<>>, !.stack = <<>>]
      [] o.e \in {"enter", "exit", "create", "destroy", "gone", "cb", "reg", "unreg"} -> UseSteps(o)
      [] o.e \in {"core", "make", "use", "close", "out"} -> Objects(o)
      [] OTHER -> Others(o)
Init == l = 1 /\ s = Empty(TRUE)
Next == l <= Len(T) /\ (\A o \in {T[l]} : Do(o)) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
