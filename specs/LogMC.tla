------------------------------- MODULE LogMC --------------------------------
(* Design model of the log: threads log, attach and detach.  Locked: every call
   is one step.  Otherwise a call looks at the handlers first and acts on what
   it saw later, which loses and repeats messages. *)
EXTENDS Log
CONSTANTS Locked, Loggers, PerLogger, Attaches
VARIABLES c, th, heard, order, nexth
vars == <<c, th, heard, order, nexth>>
H == 1..(Attaches + 1)
Init == /\ c = Quiet /\ heard = [h \in H |-> <<>>] /\ order = <<>> /\ nexth = 1
        /\ th = [t \in Loggers \cup {0} |-> [at |-> "idle", left |-> IF t = 0 THEN 2 * Attaches ELSE PerLogger]]
Tell(hd, hs, m) == [h \in H |-> IF h \in hs THEN Append(hd[h], m) ELSE hd[h]]
Msg(t) == <<t, th[t].left>>
LogStart(t) == t # 0 /\ th[t].at = "idle" /\ th[t].left > 0
               /\ IF Locked THEN /\ c' = LogIt(c, Msg(t)) /\ heard' = Tell(heard, DOMAIN c.hs, Msg(t))
                                 /\ th' = [th EXCEPT ![t].left = @ - 1] /\ order' = Append(order, Msg(t)) /\ UNCHANGED nexth
                  ELSE /\ th' = [th EXCEPT ![t] = [at |-> "seen", left |-> @.left, hs |-> DOMAIN c.hs]] /\ UNCHANGED <<c, heard, order, nexth>>
LogEnd(t) == /\ th[t].at = "seen" /\ heard' = Tell(heard, th[t].hs, Msg(t)) /\ order' = Append(order, Msg(t))
             /\ c' = IF th[t].hs = {} THEN [c EXCEPT !.kept = Append(@, Msg(t))] ELSE c
             /\ th' = [th EXCEPT ![t] = [at |-> "idle", left |-> @.left - 1]] /\ UNCHANGED nexth
AttachIt == /\ nexth \in H /\ DOMAIN c.hs = {} /\ c' = Attach(c, nexth, nexth) /\ heard' = [heard EXCEPT ![nexth] = c.kept] /\ nexth' = nexth + 1
Adder == /\ th[0].at = "idle" /\ th[0].left > 0 /\ th' = [th EXCEPT ![0].left = @ - 1] /\ UNCHANGED order
         /\ IF th[0].left % 2 = 0 THEN AttachIt ELSE c' = Detach(c, nexth - 1) /\ UNCHANGED <<heard, nexth>>
Done == \A t \in DOMAIN th : th[t].left = 0 /\ th[t].at = "idle"
Last == Done /\ DOMAIN c.hs = {} /\ AttachIt /\ UNCHANGED <<th, order>>
Next == (\E t \in Loggers : LogStart(t) \/ LogEnd(t)) \/ Adder \/ Last
Spec == Init /\ [][Next]_vars
Hs(h) == {heard[h][i] : i \in 1..Len(heard[h])}
All == {<<t, n>> : t \in Loggers, n \in 1..PerLogger}
\* one stretch of the log per handler, all of them together the whole log (up to what was dropped)
Stretch == \A h \in H : heard[h] = <<>> \/ \E i \in 1..Len(order) : i + Len(heard[h]) - 1 <= Len(order) /\ SubSeq(order, i, i + Len(heard[h]) - 1) = heard[h]
AllHeard == (Done /\ nexth = Attaches + 2) => (UNION {Hs(h) : h \in H}) = All
=============================================================================
