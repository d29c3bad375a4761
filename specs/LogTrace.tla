------------------------------ MODULE LogTrace ------------------------------
(* C11: what the handlers of real cores heard, call by call (sequential
   histories) and for overlapping calls of several threads ("par"). *)
EXTENDS Log, Json, IOUtils, SequencesExt
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cs
vars == <<l, cs>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp, T[l]>>) /\ FALSE
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)
WARN == <<-2, 2>>
\* messages delivered to listener d during a call, in order
Heard(e, d) == LET q == SelectSeq(e.del, LAMBDA x : x[1] = d) IN [i \in 1..Len(q) |-> <<q[i][2], q[i][3]>>]
Times(c, d) == Cardinality({h \in DOMAIN c.hs : c.hs[h] = d})
RECURSIVE Rep(_, _)
Rep(m, n) == IF n = 0 THEN <<>> ELSE Append(Rep(m, n - 1), m)
Listeners(e, c) == {x[1] : x \in Range(e.del)} \cup {c.hs[h] : h \in DOMAIN c.hs}
RECURSIVE LogAll(_, _)
LogAll(c, q) == IF q = <<>> THEN c ELSE LogAll(LogIt(c, q[1]), Tail(q))
\* the message of the call, and what handlers logged from inside of it
OnLog(e, c) ==
  /\ \A d \in Listeners(e, c) : LET n == Times(c, d) h == Heard(e, d) IN
       IF e.nested = <<>> THEN Rule(h = Rep(<<e.id, e.type>>, n), "delivery", d)
       ELSE Rule(Len(h) = n * (1 + Len(e.nested)) /\ Count(h, <<e.id, e.type>>) = n /\ \A x \in Range(e.nested) : Count(h, <<x[1], x[2]>>) = n, "delivery of nested messages", d)
  /\ cs' = [cs EXCEPT ![e.core] = LogIt(c, <<e.id, e.type>>)]
OnAdd(e, c) ==
  LET q == c.kept
      h == Heard(e, e.d)
      \* a handler may log while it is being told: everybody hears that at once
      plain == SelectSeq(h, LAMBDA x : ~\E y \in Range(e.nested) : y[1] = x[1])
      c2 == Attach(c, e.h, e.d)
  IN /\ Rule(IF c.lost > 0 THEN plain = q \o <<WARN>>
             ELSE plain = q \/ (Len(q) = MaxStored /\ plain = q \o <<WARN>>), "stored messages", <<q, c.lost>>)
     /\ Rule(\A x \in Range(e.nested) : \A d \in Listeners(e, c2) : Count(Heard(e, d), <<x[1], x[2]>>) = Times(c2, d), "delivery of nested messages", 0)
     /\ Rule(\A d \in Listeners(e, c2) \ {e.d} : Len(Heard(e, d)) = Times(c2, d) * Len(e.nested), "others hear nothing old", 0)
     /\ cs' = [cs EXCEPT ![e.core] = c2]
OnRemove(e, c) ==
  /\ Rule((e.ret # 0) = (e.h \in DOMAIN c.hs), "removeLogHandler", DOMAIN c.hs)
  /\ Rule(e.del = <<>>, "removing is silent", 0)
  /\ Rule(e.freed = IF e.h \in DOMAIN c.hs /\ e.hasfree = 1 THEN <<c.hs[e.h]>> ELSE <<>>, "free function", 0)
  /\ cs' = IF e.h \in DOMAIN c.hs THEN [cs EXCEPT ![e.core] = Detach(c, e.h)] ELSE cs
OnFree(e, c) ==
  /\ Rule(e.del = <<>>, "freeing is silent", 0)
  \* hasfree: the handles whose handler came with a free function
  /\ LET hs == {h \in DOMAIN c.hs : h \in Range(e.hasfree)} IN
     Rule(Len(e.freed) = Cardinality(hs) /\ \A d \in Range(e.freed) : Count(e.freed, d) = Cardinality({h \in hs : c.hs[h] = d}), "free functions", hs)
  /\ cs' = Drop(cs, e.core)
\* m: [id, type, start, end]; h: [id, add start, add end, remove start, remove end, what it heard (ids)]; stamps of one clock.
\* perm: h[1] was there all the time.  Otherwise nobody was at first and h[1] came last.
\* where each message stands in q, 0 if nowhere
Index(q, ids) == FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![q[i]] = i], TLCEval([x \in ids |-> 0]), q)
OnPar(e) ==
  LET ms == e.m
      M == 1..Len(ms)
      ids == 0..(Len(ms) - 1)
      q(h) == h[6]
      R(s) == Range(s)
      \* a linear time check of the real time order: later ones never ended before an earlier one began
      Ordered(s) == FoldLeft(LAMBDA a, x : LET m == ms[x + 1] IN IF a[1] /\ m[4] >= a[2] THEN <<TRUE, IF m[3] > a[2] THEN m[3] ELSE a[2]>> ELSE <<FALSE, 0>>,
                             <<TRUE, 0>>, s)[1]
  IN /\ Rule(\A i \in M : ms[i][1] = i - 1, "numbering", 0)
     /\ Rule(\A i \in 1..Len(e.h) : \A s \in {q(e.h[i])} : Cardinality(R(s)) = Len(s) /\ R(s) \subseteq ids, "each message once per handler", 0)
     /\ Rule(e.bad = 0, "texts and types as given", 0)
     /\ Rule(\A i \in 1..Len(e.h) : Ordered(q(e.h[i])), "call order", 0)
     \* bound by quantifiers so that each is computed once
     /\ \A pos \in {Index(q(e.h[1]), ids)} : \A i \in 1..Len(e.h) : \A h \in {e.h[i]} : \A s \in {q(h)} : \A heard \in {R(s)} :
          IF e.perm = 1
          THEN IF i = 1 THEN Rule(heard = ids, "every message", 0)
               ELSE /\ Rule(\A k \in 2..Len(s) : pos[s[k]] = pos[s[k - 1]] + 1, "what a handler hears is one stretch of the log", i)
                    /\ Rule(\A j \in M : (ms[j][3] > h[3] /\ ms[j][4] < h[4] => j - 1 \in heard), "messages while attached", i)
                    /\ Rule(\A x \in heard : ms[x + 1][4] > h[2] /\ ms[x + 1][3] < h[5], "messages before and after", i)
          ELSE /\ Rule(\A j \in M : (ms[j][3] > h[3] /\ ms[j][4] < h[4] => j - 1 \in heard), "messages while attached", i)
               /\ Rule(\A x \in heard : ms[x + 1][3] < h[5], "messages after", i)
               /\ \A b \in {Index(s, ids)} : \A j \in 1..(i - 1) :
                    \* common messages in one order: compare neighbours among the common ones
                    \A com \in {SelectSeq(q(e.h[j]), LAMBDA x : b[x] > 0)} : Rule(\A k \in 2..Len(com) : b[com[k]] > b[com[k - 1]], "one order for all", <<i, j>>)
     /\ Rule(e.perm = 1 \/ UNION {R(q(e.h[i])) : i \in 1..Len(e.h)} = ids, "every message reaches somebody", 0)
     /\ Rule(\A i \in 1..Len(e.h) : e.freed[i] = 1, "free functions", 0)
     /\ Rule(\A i \in 1..Len(e.h) : e.ret[i] = 1, "removal reports success", 0)
Step == LET e == T[l] IN
  CASE e.op = "core" -> cs' = Put(cs, e.core, Quiet)
    [] e.op = "log" -> OnLog(e, cs[e.core])
    [] e.op = "add" -> OnAdd(e, cs[e.core])
    [] e.op = "rem" -> OnRemove(e, cs[e.core])
    [] e.op = "free" -> OnFree(e, cs[e.core])
    [] e.op = "par" -> OnPar(e) /\ UNCHANGED cs
    [] e.op = "fatal" -> Rule(e.heard = e.hs /\ e.aborted = 1, "fatal message", 0) /\ UNCHANGED cs
Init == l = 1 /\ cs = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
