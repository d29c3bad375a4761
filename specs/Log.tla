-------------------------------- MODULE Log ---------------------------------
(* One core's log: attached handlers (handle -> whose), messages kept while
   nobody listens, how many were dropped. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxStored
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Quiet == [hs |-> <<>>, kept |-> <<>>, lost |-> 0]
\* what a message does to the log, and who hears it
LogIt(c, m) == IF DOMAIN c.hs # {} THEN c
               ELSE IF Len(c.kept) < MaxStored THEN [c EXCEPT !.kept = Append(@, m)] ELSE [c EXCEPT !.lost = @ + 1]
Hears(c) == c.hs
\* a new handler first hears what was kept
Attach(c, h, d) == [hs |-> Put(c.hs, h, d), kept |-> <<>>, lost |-> 0]
Detach(c, h) == [c EXCEPT !.hs = Drop(@, h)]
=============================================================================
