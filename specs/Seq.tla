-------------------------------- MODULE Seq ---------------------------------
(* What indexing, slicing, repeating and joining sequences selects, as the   *)
(* Python language defines it, and what reading a clip through its iterator  *)
(* or writing it to a file yields.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Wrap(v, n) == IF v < 0 THEN v + n ELSE v
Step(s) == Opt(s[3], 1)
(* slice.indices(n) *)
Start(s, n) ==
    IF Step(s) > 0 THEN IF s[1] = <<>> THEN 0 ELSE Clamp(Wrap(s[1][1], n), 0, n)
    ELSE IF s[1] = <<>> THEN n - 1 ELSE Clamp(Wrap(s[1][1], n), -1, n - 1)
Stop(s, n) ==
    IF Step(s) > 0 THEN IF s[2] = <<>> THEN n ELSE Clamp(Wrap(s[2][1], n), 0, n)
    ELSE IF s[2] = <<>> THEN -1 ELSE Clamp(Wrap(s[2][1], n), -1, n - 1)
Count(s, n) ==
    LET a == Start(s, n)  b == Stop(s, n)  k == Step(s) IN
    IF k > 0 THEN IF a >= b THEN 0 ELSE ((b - a - 1) \div k) + 1
    ELSE IF a <= b THEN 0 ELSE ((a - b - 1) \div (0 - k)) + 1
Slice(q, s) == LET n == Len(q) IN [i \in 1..Count(s, n) |-> q[Start(s, n) + (i - 1) * Step(s) + 1]]

(* an element of the slice is an element x_i with a <= i < b, i = a mod k:   *)
(* the same thing, said without counting                                     *)
SliceSet(s, n) ==
    IF Step(s) > 0 THEN {i \in 0..n - 1 : i >= Start(s, n) /\ i < Stop(s, n) /\ (i - Start(s, n)) % Step(s) = 0}
    ELSE {i \in 0..n - 1 : i <= Start(s, n) /\ i > Stop(s, n) /\ (Start(s, n) - i) % (0 - Step(s)) = 0}

Repeat(q, k) == [i \in 1..Len(q) * k |-> q[((i - 1) % Len(q)) + 1]]

Ok(q) == <<"ok", q>>
Err(e) == <<"err", e>>
(* clips cannot be empty *)
NonEmpty(q) == IF q = <<>> THEN Err("Error") ELSE Ok(q)

Index(q, i) == IF Wrap(i, Len(q)) \in 0..Len(q) - 1 THEN Ok(<<q[Wrap(i, Len(q)) + 1]>>) ELSE Err("IndexError")
Sliced(q, s, audio) ==
    IF s[3] = <<0>> THEN Err("ValueError")
    ELSE IF audio /\ Step(s) \notin {1, -1} THEN Err("ValueError")
    ELSE NonEmpty(Slice(q, s))
Times(q, k) == IF k < 1 THEN Err("ValueError") ELSE Ok(Repeat(q, k))

(* ------------------------------------------------ reading with frames() -- *)
MinIn(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstBad(fail, n) == IF \E f \in fail : f < n THEN MinIn({f \in fail : f < n}) ELSE n
Prefetch(p, threads) == IF p = <<>> \/ (p # <<>> /\ p[1] <= 0) THEN threads ELSE p[1]
Backlog(p, b, threads) ==
    LET pf == Prefetch(p, threads) IN IF b = <<>> \/ (b # <<>> /\ b[1] < 0) THEN 3 * pf ELSE IF b[1] < pf THEN pf ELSE b[1]
=============================================================================
