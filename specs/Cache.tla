------------------------------- MODULE Cache -------------------------------
(* The cache of one node.  Frames are <<number, identity>>, most recently used
   first.  Pure operations; used by the model and by the trace specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
General == 0  NoFrameReuse == 1  StrictSpatial == 2  ReuseLastOnly == 3
DefaultSize == 20
\* ov: mode is forced, en: caching, lo: only the last frame, fx: fixed size, mx: size
\* fuzzy: the content was last managed by the automatic sizing, old: what may still be held
NewCache == [ov |-> FALSE, en |-> TRUE, lo |-> FALSE, fx |-> FALSE, mx |-> DefaultSize, lin |-> FALSE,
             q |-> <<>>, fuzzy |-> FALSE, old |-> {}]
Take(s, k) == SubSeq(s, 1, IF Len(s) < k THEN Len(s) ELSE k)
Without(s, n) == SelectSeq(s, LAMBDA x : x[1] # n)
Holds(c, n) == \E j \in 1..Len(c.q) : c.q[j][1] = n
Held(c, n) == (CHOOSE j \in 1..Len(c.q) : c.q[j][1] = n)
Clear(c) == [c EXCEPT !.q = <<>>, !.fuzzy = ~c.fx, !.old = {}]
\* pairs that an automatically sized cache may hold: everything seen since it was cleared
Seen(c) == c.old \cup {c.q[j] : j \in 1..Len(c.q)}
Insert(c, n, u) ==
  IF c.fx /\ ~c.fuzzy THEN [c EXCEPT !.q = Take(<<<<n, u>>>> \o Without(@, n), c.mx)]
  ELSE LET r == Without(c.q, n)      \* automatic sizing: what falls off may still be there
           k == Take(<<<<n, u>>>> \o r, c.mx)
       IN [c EXCEPT !.q = k, !.old = {x \in @ : x[1] # n} \cup (({<<n, u>>} \cup {r[j] : j \in 1..Len(r)}) \ {k[j] : j \in 1..Len(k)})]
Touch(c, n) == LET x == c.q[Held(c, n)] IN [c EXCEPT !.q = <<x>> \o Without(@, n)]
SetAuto(c, cons) ==          \* cons: the patterns of all consumers
  IF c.ov THEN c
  ELSE LET en == Len(cons) # 1 \/ cons[1] \notin {StrictSpatial, NoFrameReuse}
           d == [c EXCEPT !.en = en, !.lo = Len(cons) = 1 /\ cons[1] = ReuseLastOnly]
       IN IF en THEN d ELSE Clear(d)
SetMode(c, m, cons) ==
  IF c.lin \/ m \notin {-1, 0, 1} THEN c
  ELSE LET d == CASE m = -1 -> SetAuto([c EXCEPT !.ov = FALSE], cons)
                  [] m = 0  -> [c EXCEPT !.ov = TRUE, !.en = FALSE, !.lo = FALSE]
                  [] m = 1  -> [c EXCEPT !.ov = TRUE, !.en = TRUE, !.lo = FALSE]
           k == Take(d.q, DefaultSize)
           x == [d EXCEPT !.fx = FALSE, !.mx = DefaultSize, !.fuzzy = TRUE, !.q = k, !.old = Seen(d) \ {k[j] : j \in 1..Len(k)}]
       IN IF x.en THEN x ELSE Clear(x)
SetOptions(c, f, mx, h) ==
  LET d == [c EXCEPT !.fx = IF f >= 0 THEN f > 0 ELSE @, !.mx = IF mx >= 0 THEN mx ELSE @]
  IN IF d.fx /\ ~d.fuzzy THEN [d EXCEPT !.q = Take(@, d.mx)]
     ELSE IF d.fx THEN (IF d.mx = 0 THEN [d EXCEPT !.fuzzy = FALSE, !.q = <<>>, !.old = {}]
                        ELSE IF d.old = {} /\ d.q = <<>> THEN [d EXCEPT !.fuzzy = FALSE]
                        ELSE LET k == Take(d.q, d.mx) IN [d EXCEPT !.q = k, !.old = Seen(d) \ {k[j] : j \in 1..Len(k)}])
     ELSE LET k == Take(d.q, d.mx) IN [d EXCEPT !.fuzzy = TRUE, !.q = k, !.old = Seen(d) \ {k[j] : j \in 1..Len(k)}]
Linear(c, th) == [c EXCEPT !.lin = TRUE, !.ov = TRUE, !.en = TRUE, !.lo = FALSE, !.fx = TRUE, !.mx = th * 2 + DefaultSize, !.fuzzy = FALSE]
============================================================================
