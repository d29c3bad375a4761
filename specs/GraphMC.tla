------------------------------ MODULE GraphMC -------------------------------
(* Design model: calls and returns on several threads; Local: every thread has
   a stack of its own, otherwise they share one.  real: the calls a thread is
   really inside of. *)
EXTENDS Graph
CONSTANTS Local, Thr, MaxCalls
VARIABLES st, real, nodes, n
vars == <<st, real, nodes, n>>
Key(t) == IF Local THEN t ELSE 0
Init == st = <<>> /\ real = [t \in Thr |-> <<>>] /\ nodes = <<>> /\ n = 0
Call(t) == n < MaxCalls /\ Len(real[t]) < 3 /\ n' = n + 1 /\ st' = Enter(st, Key(t), n') /\ real' = [real EXCEPT ![t] = <<n'>> \o @] /\ UNCHANGED nodes
Ret(t) == real[t] # <<>> /\ Stack(st, Key(t)) # <<>> /\ st' = Leave(st, Key(t)) /\ real' = [real EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<nodes, n>>
New(t) == Cardinality(DOMAIN nodes) < 3 /\ nodes' = Make(nodes, st, Key(t), Cardinality(DOMAIN nodes) + 1, "", 0, <<>>, TRUE)
          /\ UNCHANGED <<st, real, n>> 
Next == \E t \in Thr : Call(t) \/ Ret(t) \/ New(t)
Spec == Init /\ [][Next]_vars
OwnCalls == [][\A t \in Thr : New(t) => nodes'[Cardinality(DOMAIN nodes')].made = real[t]]_vars
Kept == [][\A x \in DOMAIN nodes : nodes'[x] = nodes[x]]_vars
=============================================================================
