----------------------------- MODULE RefsTrace ------------------------------
(* C08: free callbacks run exactly when the last reference goes.
   Every event carries the callbacks that ran up to it (freed) and the memory in
   frame buffers (used, -1: not looked at). *)
EXTENDS Refs, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, d
vars == <<l, s, d>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp, T[l]>>) /\ FALSE
\* frames made while the operation ran: made by filter m[1] as its frame m[2]
RECURSIVE AddMade(_, _)
AddMade(t, q) ==
  IF q = <<>> THEN t
  ELSE LET m == q[1]
           a == [t EXCEPT !.user = Put(@, m[3], 0), !.size = Put(@, m[3], d.sz[m[4]]), !.quiet = @ \cup {m[3]},
                          !.ent = Put(@, m[3], ("own" :> t.att[m[1]]))]
           b == IF m[1] \in t.cached THEN [a EXCEPT !.ent[m[1]] = Put(@, ToString(m[2]), <<m[3]>>)] ELSE a
       IN AddMade(b, Tail(q))
RECURSIVE Results(_, _, _, _)
Results(t, res, hold, may) ==
  IF res = <<>> THEN t
  ELSE Results(IF res[1][2] = 1 THEN [New(t, res[1][1], TRUE, 0, hold) EXCEPT !.node = @ \cup {res[1][1]}, !.ent[res[1][1]] = ("may" :> may) @@ @] ELSE Handle(t, res[1][1], 1), Tail(res), hold, may)
Got(t, e) == \* the frame of a request: fresh, or the one the cache of the filter kept
  IF e.keep < 0 THEN t ELSE [t EXCEPT !.user[e.keep] = @ + 1]
Key(n) == ToString(n)
Next0(e, t) ==   \* e applied to t (t: the state with the frames made added)
  CASE e.op = "new" -> [New(t, e.id, e.q = 1, e.size, e.hold) EXCEPT
                          !.node = IF e.node = 1 THEN @ \cup {e.id} ELSE @, !.cached = IF e.cached = 1 THEN @ \cup {e.id} ELSE @,
                          !.att = IF e.node = 1 THEN Put(@, e.id, e.att) ELSE @]
    [] e.op = "ref" -> Handle(t, e.id, 1)
    [] e.op = "drop" -> Handle(t, e.id, -1)
    [] e.op = "race" -> DropAll(t, e.ids)
    [] e.op = "put" -> LET u == IF e.con = 1 THEN Handle(t, e.x, -1) ELSE t IN IF e.r = 0 THEN PutIn(u, e.id, e.k, e.x, e.app = 1) ELSE u
    [] e.op = "clr" -> Clear(t, e.id)
    [] e.op = "del" -> DelKey(t, e.id, e.k)
    [] e.op = "cpm" -> CopyInto(t, e.src, e.id)
    [] e.op = "get" -> Got(t, e)
    [] e.op = "cc" -> UnCache(t, IF e.id < 0 THEN t.cached ELSE {e.id} \cap t.cached)
    [] e.op = "std" -> Results(t, e.res, e.hold, e.may)
    [] e.op = "req" -> [t EXCEPT !.fly = @ \cup {e.id}]
    [] e.op = "ans" -> [t EXCEPT !.fly = @ \ {e.id}]
    [] e.op = "core" -> [t EXCEPT !.user = [o \in DOMAIN @ |-> IF o \in t.node \/ o \in t.quiet \/ o \notin d.logs THEN @[o] ELSE 0]]
Step == LET e == T[l] IN
  IF e.op = "long" THEN
    /\ Rule(e.freed = e.n /\ e.distinct = e.n /\ e.early = 0, "a long chain is freed, every filter once", e.n)
    /\ UNCHANGED <<s, d>>
  ELSE IF e.op = "reset" THEN
    /\ s' = Empty /\ d' = [sz |-> e.sz, logs |-> {}]
    /\ Rule(e.used = 0, "used memory at the start", 0)
  ELSE
    LET t0 == AddMade(s, e.made)
        t == Next0(e, t0)
        A == Alive(t)
        M == IF e.std = 1 THEN MustLive(t) ELSE A
        F == Range(e.freed)
        dead == {o \in DOMAIN t.user : o \notin A /\ o \notin t.quiet}
        u == Trim(t, F)
    IN /\ s' = u
       /\ d' = IF e.op = "new" /\ e.q = 0 /\ e.node = 0 /\ "log" \in DOMAIN e THEN [d EXCEPT !.logs = @ \cup {e.id}] ELSE d
       /\ Rule(Len(e.freed) = Cardinality(F), "a free callback ran twice", 0)
       /\ Rule(dead \subseteq F, "objects not freed by this operation", dead \ F)
       /\ Rule(F \subseteq DOMAIN t.user \ M, "objects freed while still held", F \ (DOMAIN t.user \ M))
       /\ Rule(e.used < 0 \/ e.used = SumOver(u.size, DOMAIN u.size), "memory in frames", SumOver(u.size, DOMAIN u.size))
       /\ Rule(e.op # "drop" \/ "r" \notin DOMAIN e \/ e.r = 1, "removeLogHandler", 1)
       /\ (e.op = "core" /\ e.seen = 1) =>
            LET n == Cardinality(s.node) b == SumOver(s.size, DOMAIN s.size) m == Cardinality(s.node \cap MustLive(s)) IN
            /\ Rule(IF e.std = 1 /\ n > 0 THEN m = 0 \/ e.inst >= m ELSE e.inst = IF n = 0 THEN -1 ELSE n, "filter instances left at freeCore", n)
            /\ Rule((e.std = 1 /\ n > 0) \/ e.bytes = IF b = 0 THEN -1 ELSE b, "bytes left at freeCore", b)
Init == l = 1 /\ s = Empty /\ d = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
