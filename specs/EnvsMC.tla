------------------------------- MODULE EnvsMC -------------------------------
(* Every history of two threads using, nesting and destroying environments.  *)
EXTENDS Envs
CONSTANTS Local,        \* a current environment for each thread, or one for all
          NEnvs, NThreads, MaxOps, Depth,
          Bug           \* 0, or what is broken
VARIABLES s, ran, n, hist
vars == <<s, ran, n, hist>>
Es == 1..NEnvs   Ts == 1..NThreads
Init ==
    /\ s = [local |-> Local, env |-> [e \in Es |-> [NewEnv(0) EXCEPT !.cbs = <<1, 2>>]], cur |-> <<>>, stack |-> <<>>, obj |-> <<>>]
    /\ ran = [e \in Es |-> <<>>] /\ n = 0 /\ hist = <<>>
Count == n < MaxOps /\ n' = n + 1
(* hist: for each open use(), what was current before, by thread *)
Push(t, v) == hist' = Set(hist, t, <<v>> \o (IF t \in DOMAIN hist THEN hist[t] ELSE <<>>))
Pop(t) == hist' = Set(hist, t, Tail(hist[t]))
EnterA(t, e) ==
    /\ Count /\ Len(StackOf(s, t)) < Depth /\ s' = Enter(s, t, e) /\ Push(t, Cur(s, t)) /\ UNCHANGED ran
ExitA(t) ==
    /\ Count /\ StackOf(s, t) # <<>> /\ hist[t] # <<>>
    /\ s' = (IF Bug = 1 THEN [s EXCEPT !.cur = Set(s.cur, Slot(s, t), Head(StackOf(s, t))), !.stack = Set(s.stack, t, Tail(StackOf(s, t)))]
             ELSE IF Bug = 2 THEN [s EXCEPT !.stack = Set(s.stack, t, Tail(StackOf(s, t)))] ELSE Exit(s, t))
    /\ Pop(t) /\ UNCHANGED ran
(* destroying runs in one go: the callbacks, each seeing the environment *)
RECURSIVE RunAll(_, _, _)
RunAll(x, e, acc) == IF x.env[e].todo = <<>> THEN <<x, acc>> ELSE RunAll(Called(x, e), e, Append(acc, Head(x.env[e].todo)))
DestroyA(t, e) ==
    /\ Count /\ (IF Bug = 3 THEN TRUE ELSE s.env[e].st = "alive")
    /\ \A b \in {IF Bug = 3 THEN [Destroy(s, t, e) EXCEPT !.env[e].cbs = <<1, 2>>] ELSE Destroy(s, t, e)} :
       \A r \in {RunAll(b, e, ran[e])} :
         /\ ran' = [ran EXCEPT ![e] = r[2]]
         /\ s' = Gone(r[1], t, e)
    /\ UNCHANGED hist
MakeA(t) ==
    /\ Count /\ Cur(s, t) # 0 /\ Cardinality(DOMAIN s.obj) < 3
    /\ s' = Made(s, Cardinality(DOMAIN s.obj) + 1, IF Bug = 4 THEN 1 ELSE Cur(s, t), Cur(s, t)) /\ UNCHANGED <<ran, hist>>
Next == \E t \in Ts : ExitA(t) \/ MakeA(t) \/ \E e \in Es : EnterA(t, e) \/ DestroyA(t, e)
Spec == Init /\ [][Next]_vars

(* with a policy for each thread, leaving the outermost use() gets back to none *)
Restored == s.local => \A t \in Ts : (StackOf(s, t) = <<>> => Raw(s, t) = 0)
StacksAgree == \A t \in Ts : t \in DOMAIN hist => hist[t] = StackOf(s, t)
Once == \A e \in Es : ran[e] = (IF s.env[e].st = "dead" THEN <<1, 2>> ELSE <<>>)
Ends == \A o \in DOMAIN s.obj : (Unusable(s, o) <=> s.env[s.obj[o].core].st = "dead")
NoSwitch == [][\A t \in Ts : s.local /\ Cur(s, t) # Cur(s', t) =>
                 (StackOf(s, t) # StackOf(s', t) \/ s'.env[Cur(s, t)].st = "dead")]_vars
(* restoring: what was current before a use() is current after it unless it  *)
(* has been destroyed meanwhile                                              *)
Back == [][\A t \in Ts : Len(StackOf(s', t)) < Len(StackOf(s, t)) => Cur(s', t) = (IF Lives(s', Head(hist[t])) THEN Head(hist[t]) ELSE 0)]_vars
DeadNotSet == [][\A t \in Ts : Raw(s', t) # Raw(s, t) => Raw(s', t) = 0 \/ Lives(s', Raw(s', t)) \/ \E e \in Es : s.env[e].st # "dead" /\ s'.env[e].st = "dead"]_vars
=============================================================================
