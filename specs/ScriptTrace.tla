---------------------------- MODULE ScriptTrace -----------------------------
(* Every call on the handles of one thread of the real libvsscript.          *)
EXTENDS Script, Json, IOUtils, TLCExt
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, hs
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp>>) /\ FALSE

OutKey(i) == ToString(i)
Get(e, s) ==
    IF ~Has(s.vars, e.name) THEN Rule(e.rc # 0, "a missing variable is reported", 1)
    ELSE \A v \in {s.vars[e.name]} :
         IF v[1] = "?" THEN TRUE
         ELSE IF ~Storable(v) THEN Rule(e.rc # 0, "a variable that fits no map is reported", v)
         ELSE Rule(e.rc = 0 /\ e.val = Elems(v), "value of the variable", v)

Apply(e) ==
    CASE e.e = "create" -> hs' = Put(hs, e.h, [Fresh EXCEPT !.core = e.core])
      [] e.e = "eval" ->
            \A n \in {TLCEval(IF e.how = "nofile" THEN [hs[e.h] EXCEPT !.status = "error"] ELSE Evaluate(hs[e.h], e.prog, [file |-> e.how = "file", cwd |-> e.cwd]))} :
            /\ Rule((e.rc = 0) <=> (n.status = "ok"), "result of the evaluation", n)
            /\ Rule(e.err <=> (n.status # "ok"), "error message", n)
            /\ Rule(e.err => e.msg, "text of the error", n)
            /\ Rule(n.exit = -1 \/ e.exit = n.exit, "exit code", n)
            /\ Rule(e.cwdok, "working directory afterwards", n)
            /\ hs' = Put(hs, e.h, n)
      [] e.e = "get" -> Get(e, hs[e.h]) /\ UNCHANGED hs
      [] e.e = "set" ->
            IF e.bad THEN Rule(e.rc # 0, "variables that do not fit are refused", 0) /\ UNCHANGED hs
            ELSE /\ Rule(e.rc = 0, "variables set", 0)
                 /\ hs' = [hs EXCEPT ![e.h].vars = [k \in DOMAIN @ \union DOMAIN e.vars |-> IF Has(e.vars, k) THEN FromMap(e.vars[k]) ELSE @[k]]]
      [] e.e = "out" ->
            \A o \in {hs[e.h].outs} : \A want \in {IF Has(o, OutKey(e.i)) THEN o[OutKey(e.i)] ELSE <<0, 0, 0>>} :
            Rule(<<e.main, e.alpha, e.alt>> = want, "output", want) /\ UNCHANGED hs
      [] e.e = "avail" ->
            \A o \in {DOMAIN hs[e.h].outs} :
            \A got \in {{OutKey(e.list[i]) : i \in 1..Len(e.list)}} :
            /\ Rule(e.ret = Cardinality(o), "number of outputs", o)
            /\ Rule(got \subseteq o /\ Cardinality(got) = Len(e.list) /\ Len(e.list) = (IF e.size < Cardinality(o) THEN e.size ELSE Cardinality(o)), "output indices", o)
            /\ UNCHANGED hs
      [] e.e = "core" ->
            /\ Rule(e.freed = FALSE, "the core lives as long as the handle", 0)
            /\ Rule(hs[e.h].core = 0 \/ e.id = hs[e.h].core, "the handle keeps its core", hs[e.h].core)
            /\ Rule(\A h \in DOMAIN hs \ {e.h} : hs[h].core # e.id, "no other handle has that core", e.id)
            /\ Rule(hs[e.h].thr \in {0, e.thr}, "threads of the core", hs[e.h].thr)
            /\ hs' = [hs EXCEPT ![e.h].core = e.id]
      [] e.e = "free" -> Rule(e.freed, "freeScript ends the environment", 0) /\ hs' = Drop(hs, e.h)

Init == l = 1 /\ hs = <<>>
Next == l <= Len(T) /\ (\A e \in {T[l]} : Apply(e)) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, hs>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
