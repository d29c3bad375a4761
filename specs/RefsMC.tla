------------------------------- MODULE RefsMC -------------------------------
(* Reference counting as the core does it (each thread takes one reference off, the
   one that took the last off runs the free callback, which in turn drops what the
   object held) against its meaning: freed exactly when unreachable (Refs!Close). *)
EXTENDS Refs
CONSTANTS N, Threads, Atomic, MaxDrops
Objs == 1..N
VARIABLES hold, rc, handles, freed, todo, tmp, drops
vars == <<hold, rc, handles, freed, todo, tmp, drops>>
\* every object may hold earlier ones
Init == /\ hold \in [Objs -> UNION {[1..k -> Objs] : k \in 0..2}]
        /\ \A o \in Objs : \A j \in DOMAIN hold[o] : hold[o][j] < o
        /\ handles \in [Objs -> 1..2] /\ \A o \in Objs : o < N => handles[o] = 1
        /\ rc = [o \in Objs |-> handles[o] + SumOver([p \in Objs |-> Cardinality({j \in DOMAIN hold[p] : hold[p][j] = o})], Objs)]
        /\ freed = [o \in Objs |-> 0] /\ todo = [t \in Threads |-> <<>>] /\ tmp = [t \in Threads |-> -1] /\ drops = 0
\* the user drops a handle from thread t
Drop(t) == /\ todo[t] = <<>> /\ \E o \in Objs : handles[o] > 0 /\ handles' = [handles EXCEPT ![o] = @ - 1] /\ todo' = [todo EXCEPT ![t] = <<o>>]
           /\ drops < MaxDrops /\ drops' = drops + 1 /\ UNCHANGED <<hold, rc, freed, tmp>>
\* take a new handle through one that is held
Ref == /\ drops < MaxDrops /\ \E o \in Objs : handles[o] \in 1..1 /\ handles' = [handles EXCEPT ![o] = @ + 1] /\ rc' = [rc EXCEPT ![o] = @ + 1]
       /\ drops' = drops + 1 /\ UNCHANGED <<hold, freed, todo, tmp>>
After(t, o, n) == IF n = 0 THEN freed' = [freed EXCEPT ![o] = @ + 1] /\ todo' = [todo EXCEPT ![t] = Tail(@) \o hold[o]]
                  ELSE freed' = freed /\ todo' = [todo EXCEPT ![t] = Tail(@)]
Dec(t) == /\ todo[t] # <<>> /\ LET o == todo[t][1] IN
             IF Atomic THEN rc' = [rc EXCEPT ![o] = @ - 1] /\ After(t, o, rc[o] - 1) /\ UNCHANGED <<hold, handles, tmp, drops>>
             ELSE IF tmp[t] < 0 THEN tmp' = [tmp EXCEPT ![t] = rc[o]] /\ UNCHANGED <<hold, rc, handles, freed, todo, drops>>
             ELSE rc' = [rc EXCEPT ![o] = tmp[t] - 1] /\ tmp' = [tmp EXCEPT ![t] = -1] /\ After(t, o, tmp[t] - 1) /\ UNCHANGED <<hold, handles, drops>>
Next == (\E t \in Threads : Drop(t) \/ Dec(t)) \/ Ref
Spec == Init /\ [][Next]_vars
Ent == [o \in Objs |-> ("own" :> hold[o])]
Pending == UNION {Range(todo[t]) : t \in Threads}
Reach(R) == Close(Ent, {}, R)
Held1 == {o \in Objs : handles[o] > 0}
Once == \A o \in Objs : freed[o] <= 1
NotEarly == \A o \in Reach(Held1 \cup Pending) : freed[o] = 0
AtRest == (\A t \in Threads : todo[t] = <<>>) => \A o \in Objs : freed[o] = IF o \in Reach(Held1) THEN 0 ELSE 1
Refcounts == Once /\ NotEarly /\ AtRest
=============================================================================
