------------------------------ MODULE CacheMC ------------------------------
(* The list operations of Cache.tla against the declarative meaning of C05:
   with fixed options a frame is held exactly when it is among the N most
   recently used distinct frames since the cache was cleared or reconfigured. *)
EXTENDS Cache
CONSTANTS Frames, MaxHist, MaxSize
Sizes == -1..MaxSize
VARIABLES c, hist, u, base, cons
vars == <<c, hist, u, base, cons>>
Init == c = NewCache /\ hist = <<>> /\ u = 0 /\ base = <<>> /\ cons = <<>>
\* a request: served from the cache or produced
Access(n) ==
  /\ Len(hist) < MaxHist
  /\ hist' = Append(hist, n)
  /\ IF c.en /\ Holds(c, n) THEN c' = Touch(c, n) /\ UNCHANGED u
     ELSE u' = u + 1 /\ c' = IF c.en THEN Insert(c, n, u + 1) ELSE c
  /\ UNCHANGED <<base, cons>>
Reconf(d) == c' = d /\ hist' = <<>> /\ base' = d.q /\ UNCHANGED <<u, cons>>
Configure == \/ \E m \in {-1, 0, 1} : Reconf(SetMode(c, m, cons))
             \/ \E f \in {-1, 0, 1}, s \in Sizes : Reconf(SetOptions(c, f, s, -1))
             \/ Reconf(Clear(c))
             \/ \E p \in {<<>>, <<General>>, <<StrictSpatial>>, <<NoFrameReuse>>, <<ReuseLastOnly>>} :
                  cons' = p /\ c' = SetAuto(c, p) /\ hist' = <<>> /\ base' = c'.q /\ UNCHANGED u
Next == (\E n \in Frames : Access(n)) \/ (u < MaxHist /\ Configure)
Spec == Init /\ [][Next]_vars
\* distinct frames of the accesses since base, most recent first
RECURSIVE Recent(_, _)
Recent(h, b) == IF h = <<>> THEN b
                ELSE LET n == h[Len(h)] r == SelectSeq(Recent(SubSeq(h, 1, Len(h) - 1), b), LAMBDA x : x # n) IN <<n>> \o r
Nums(s) == [j \in 1..Len(s) |-> s[j][1]]
Exact == c.fx /\ ~c.fuzzy /\ c.en => Nums(c.q) = Take(Recent(hist, Nums(base)), c.mx)
Bounded == c.fx /\ ~c.fuzzy => Len(c.q) <= c.mx
Unique == \A i, j \in 1..Len(c.q) : c.q[i][1] = c.q[j][1] => i = j
Disabled == ~c.en => c.q = <<>>
============================================================================
