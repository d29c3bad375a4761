------------------------------ MODULE VspipeMC ------------------------------
(* The request window: R frames (and their alpha frames) are asked for at    *)
(* first, each completed frame asks for the next one, completed frames wait  *)
(* until those before them are written, and any failure stops requesting.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, R, Alpha, Bug
Kinds == IF Alpha THEN {"main", "alpha"} ELSE {"main"}
Min2(a, b) == IF a < b THEN a ELSE b
VARIABLES fails, badwrite, total, requested, inflight, ready, done, out, err
vars == <<fails, badwrite, total, requested, inflight, ready, done, out, err>>

Init ==
    /\ fails \in SUBSET (Kinds \X (0..N - 1))
    /\ badwrite \in 0..N                        \* the frame whose writing fails, N: none
    /\ total = N
    /\ requested = Min2(R, N)
    /\ inflight = Kinds \X (0..Min2(R, N) - 1)
    /\ ready = {}
    /\ done = [k \in Kinds |-> 0]
    /\ out = <<>>
    /\ err = FALSE

Both(s, n) == \A k \in Kinds : <<k, n>> \in s

(* writes as long as the next frame is there; stops for good at an error *)
RECURSIVE Drain(_, _, _, _)
Drain(s, next, o, e) ==
    IF Bug = "order" THEN
        LET c == {n \in 0..N - 1 : Both(s, n)} IN
        IF c = {} THEN <<s, next, o, e>>
        ELSE LET n == CHOOSE x \in c : TRUE IN Drain(s \ (Kinds \X {n}), next + 1, IF e THEN o ELSE Append(o, n), e)
    ELSE IF ~Both(s, next) THEN <<s, next, o, e>>
    ELSE LET e2 == e \/ next = badwrite IN
         Drain(s \ (Kinds \X {next}), next + 1, IF e2 /\ Bug # "resume" THEN o ELSE Append(o, next), e2)

VARIABLE next
Complete(x) ==
    LET k == x[1]  n == x[2] IN
    /\ x \in inflight
    /\ done' = [done EXCEPT ![k] = @ + 1]
    /\ IF x \in fails
       THEN /\ err' = TRUE
            /\ total' = requested
            /\ inflight' = inflight \ {x}
            /\ UNCHANGED <<requested, ready, out, next>>
       ELSE LET r1 == ready \union {x}
                more == Both(r1, n) /\ requested < total
                req1 == requested + (IF more THEN 1 ELSE 0)
                d == Drain(r1, next, out, err)
            IN /\ requested' = req1
               /\ inflight' = (inflight \ {x}) \union (IF more THEN Kinds \X {requested} ELSE {})
               /\ ready' = d[1]
               /\ next' = d[2]
               /\ out' = d[3]
               /\ err' = d[4]
               /\ total' = IF d[4] /\ ~err THEN req1 ELSE total
    /\ UNCHANGED <<fails, badwrite>>

Over == \A k \in Kinds : done[k] = total
(* the main thread is woken once everything asked for has completed *)
Woken == IF Bug = "alphaless" THEN done["main"] = total ELSE Over
Stop == Woken /\ UNCHANGED vars /\ UNCHANGED next
Next == (\E x \in inflight : ~Woken /\ Complete(x)) \/ Stop
Spec == Init /\ next = 0 /\ [][Next]_<<vars, next>> /\ WF_<<vars, next>>(\E x \in inflight : Complete(x))

Prefix == \A i \in 1..Len(out) : out[i] = i - 1
Window == Cardinality(inflight) <= R * Cardinality(Kinds)
NoneFailing == \A i \in 1..Len(out) : \A k \in Kinds : <<k, out[i]>> \notin fails
Result == Woken => /\ (err <=> (fails # {} \/ badwrite < N))
                   /\ (~err => Len(out) = N)
                   /\ inflight = {}
Ends == <>[]Woken
=============================================================================
