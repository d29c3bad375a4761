------------------------------- MODULE Graph --------------------------------
(* Which nodes were made, by whom, out of what.  Every thread has a stack of
   the plugin functions it is inside of; a node keeps the stack of its maker. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(f, k, v) == (k :> v) @@ f
Stack(st, t) == IF t \in DOMAIN st THEN st[t] ELSE <<>>      \* innermost first
Enter(st, t, call) == Put(st, t, <<call>> \o Stack(st, t))
Leave(st, t) == Put(st, t, Tail(Stack(st, t)))
Make(nodes, st, t, id, name, mode, deps, insp) == Put(nodes, id, [name |-> name, mode |-> mode, deps |-> deps, made |-> IF insp THEN Stack(st, t) ELSE <<>>])
=============================================================================
