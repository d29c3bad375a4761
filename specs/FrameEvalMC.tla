----------------------------- MODULE FrameEvalMC -----------------------------
(* C16: the protocol of FrameEval/ModifyFrame.  The instance has one argument map and one result map
   shared by all requests; each request puts its number in, calls the function, empties the argument
   map, takes the result and empties the result map.  Exclusive: the filter mode keeps the
   evaluations apart.  The function answers with the number it was given, or fails. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Reqs, Fails, Exclusive, Clears
VARIABLES pc, in, out, res, busy, calls
vars == <<pc, in, out, res, busy, calls>>
Init == pc = [r \in Reqs |-> "start"] /\ in = <<>> /\ out = <<>> /\ res = [r \in Reqs |-> <<>>] /\ busy = {} /\ calls = [r \in Reqs |-> 0]
Go(r, from, to) == pc[r] = from /\ pc' = [pc EXCEPT ![r] = to]
Enter(r) == Go(r, "start", "set") /\ (Exclusive => busy = {}) /\ busy' = busy \cup {r} /\ UNCHANGED <<in, out, res, calls>>
SetN(r) == Go(r, "set", "call") /\ in' = Append(in, r) /\ UNCHANGED <<out, res, busy, calls>>
Call(r) == Go(r, "call", "clear") /\ in # <<>> /\ calls' = [calls EXCEPT ![in[1]] = @ + 1] /\ out' = Append(out, IF in[1] \in Fails THEN -1 ELSE in[1]) /\ UNCHANGED <<in, res, busy>>
CallNothing(r) == Go(r, "call", "clear") /\ in = <<>> /\ out' = Append(out, -2) /\ UNCHANGED <<in, res, busy, calls>>
ClearIn(r) == Go(r, "clear", "take") /\ in' = <<>> /\ UNCHANGED <<out, res, busy, calls>>
Take(r) == Go(r, "take", "done") /\ res' = [res EXCEPT ![r] = IF out = <<>> THEN <<-3>> ELSE <<out[1]>>] /\ out' = (IF Clears THEN <<>> ELSE out) /\ busy' = busy \ {r} /\ UNCHANGED <<in, calls>>
Next == \E r \in Reqs : Enter(r) \/ SetN(r) \/ Call(r) \/ CallNothing(r) \/ ClearIn(r) \/ Take(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == \A r \in Reqs : res[r] # <<>> => res[r] = <<IF r \in Fails THEN -1 ELSE r>>
OneCall == \A r \in Reqs : calls[r] <= 1 /\ (pc[r] = "done" => calls[r] = 1)
AllDone == <>(\A r \in Reqs : pc[r] = "done")
=============================================================================
