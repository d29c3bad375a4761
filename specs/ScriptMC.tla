------------------------------ MODULE ScriptMC ------------------------------
(* Handles used from several threads at once, statement by statement: the    *)
(* environment a statement acts on is the one its thread made current.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Steps, Bug
Handles == {1, 2}
None == 0
VARIABLES alive, env, cur, run, pc, left, want, error, erring, frees
vars == <<alive, env, cur, run, pc, left, want, error, erring, frees>>
(* env: the value each environment holds; want: what the statements of a handle's own scripts made of it *)
Init ==
    /\ alive = Handles
    /\ env = [h \in Handles |-> 0]
    /\ want = [h \in Handles |-> 0]
    /\ cur = [t \in Threads \union {None} |-> None]
    /\ run = [t \in Threads |-> None]           \* the handle being evaluated
    /\ pc = [t \in Threads |-> 0]
    /\ left = Steps
    /\ error = [h \in Handles |-> FALSE]
    /\ erring = [h \in Handles |-> FALSE]       \* the last evaluation failed
    /\ frees = 0
Slot(t) == IF Bug = "global" THEN None ELSE t
Begin(t, h) ==
    /\ run[t] = None /\ h \in alive /\ left > 0
    /\ \A u \in Threads : run[u] # h
    /\ run' = [run EXCEPT ![t] = h]
    /\ pc' = [pc EXCEPT ![t] = 2]
    /\ cur' = [cur EXCEPT ![Slot(t)] = h]
    /\ error' = IF Bug = "stale" THEN error ELSE [error EXCEPT ![h] = FALSE]
    /\ left' = left - 1
    /\ UNCHANGED <<alive, env, want, erring, frees>>
Statement(t) ==
    /\ run[t] # None /\ pc[t] > 0
    /\ cur[Slot(t)] # None
    /\ env' = [env EXCEPT ![cur[Slot(t)]] = @ * 3 + t]
    /\ want' = [want EXCEPT ![run[t]] = @ * 3 + t]
    /\ pc' = [pc EXCEPT ![t] = @ - 1]
    /\ UNCHANGED <<alive, cur, run, left, error, erring, frees>>
End(t, fails) ==
    /\ run[t] # None /\ (pc[t] = 0 \/ fails)
    /\ error' = IF fails THEN [error EXCEPT ![run[t]] = TRUE] ELSE error
    /\ erring' = [erring EXCEPT ![run[t]] = fails]
    /\ cur' = [cur EXCEPT ![Slot(t)] = None]
    /\ run' = [run EXCEPT ![t] = None]
    /\ pc' = [pc EXCEPT ![t] = 0]
    /\ UNCHANGED <<alive, env, want, left, frees>>
Free(h) ==
    /\ h \in alive /\ \A t \in Threads : run[t] # h
    /\ alive' = alive \ {h}
    /\ env' = IF Bug = "freeall" THEN [x \in Handles |-> 0] ELSE [env EXCEPT ![h] = 0]
    /\ frees' = frees + 1
    /\ UNCHANGED <<cur, run, pc, left, want, error, erring>>
Next == (\E t \in Threads, h \in Handles : Begin(t, h)) \/ (\E t \in Threads : Statement(t) \/ End(t, TRUE) \/ End(t, FALSE)) \/ (\E h \in Handles : Free(h))
Spec == Init /\ [][Next]_vars
Independent == \A h \in alive : env[h] = want[h]
Errors == \A h \in alive : (\A t \in Threads : run[t] # h) => error[h] = erring[h]
Restored == \A t \in Threads : run[t] = None => cur[t] = None
=============================================================================
