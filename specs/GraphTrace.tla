----------------------------- MODULE GraphTrace -----------------------------
(* C22: what graph inspection says about nodes of the real core. *)
EXTENDS Graph, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nodes, st, insp
vars == <<l, nodes, st, insp>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp, T[l]>>) /\ FALSE
Step == LET e == T[l] IN
  CASE e.op = "core" -> insp' = (e.insp = 1) /\ nodes' = <<>> /\ st' = <<>>
    [] e.op = "call" -> st' = Enter(st, e.t, e.c) /\ UNCHANGED <<nodes, insp>>
    [] e.op = "ret" -> Rule(Stack(st, e.t) # <<>>, "driver", 0) /\ st' = Leave(st, e.t) /\ UNCHANGED <<nodes, insp>>
    [] e.op = "node" -> nodes' = Make(nodes, st, e.t, e.id, e.name, e.mode, e.deps, insp) /\ UNCHANGED <<st, insp>>
    [] OTHER -> \* query
         LET n == nodes[e.id] IN
         /\ Rule(e.name = n.name, "name", n)
         /\ Rule(e.mode = n.mode, "filter mode", n)
         /\ Rule(e.deps = n.deps, "dependencies", n)
         /\ Rule(e.lv = n.made, "creating functions", n)
         /\ Rule(e.past = 0, "nothing beyond the end", 0)
         /\ UNCHANGED <<nodes, st, insp>>
Init == l = 1 /\ nodes = <<>> /\ st = <<>> /\ insp = FALSE
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
