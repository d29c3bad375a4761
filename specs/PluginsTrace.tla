---------------------------- MODULE PluginsTrace ----------------------------
(* C10: registration, lookup and calls of plugin functions on the real core. *)
EXTENDS Plugins, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Rule(b, what, exp) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, exp, T[l]>>) /\ FALSE
Same(p, q) == q.ns = p.ns /\ q.full = p.full /\ q.ver = p.ver
Listed(p) == {<<n, p.fns[n].shown, p.fns[n].ret>> : n \in DOMAIN p.fns}
\* the functions the core brings along are taken as they are
RECURSIVE Builtin(_)
Builtin(q) == IF q = <<>> THEN <<>> ELSE
  LET p == q[1] IN Put(Builtin(Tail(q)), p.id, [ns |-> p.ns, full |-> p.full, ver |-> p.ver, v3 |-> FALSE, ro |-> TRUE,
     fns |-> [n \in {f[1] : f \in Range(p.fns)} |-> LET f == CHOOSE f \in Range(p.fns) : f[1] = n IN [args |-> Args(f[2], FALSE), shown |-> f[2], ret |-> f[3]]]])
RECURSIVE RegRules(_, _)
RegRules(p, q) == IF q = <<>> THEN TRUE ELSE
  /\ Rule(q[1].ok < 0 \/ (q[1].ok # 0) = CanRegister(p, q[1].n, q[1].a, q[1].r), "registerFunction", q[1])
  /\ RegRules(Register(p, q[1].n, q[1].a, q[1].r), Tail(q))
IdOf(e) == IF e.fid # "" THEN e.fid ELSE e.id
NsOf(e) == IF e.fns # "" THEN e.fns ELSE e.ns
Fresh(e) == [ns |-> NsOf(e), full |-> e.full, ver |-> e.ver, v3 |-> e.api = 3, ro |-> FALSE, fns |-> <<>>]
Loaded(r, e) == Put(r, IdOf(e), [RegisterAll(Fresh(e), e.regs) EXCEPT !.ro = e.mod = 0])
Step == LET e == T[l] IN
  CASE e.op = "reset" ->
         /\ Rule(Cardinality({p.id : p \in Range(e.plugins)}) = Len(e.plugins) /\ Cardinality({p.ns : p \in Range(e.plugins)}) = Len(e.plugins), "unique plugins", 0)
         /\ Rule(\A p \in Range(e.plugins) : \A f \in Range(p.fns) : WellFormed(f[2], FALSE) /\ (f[3] = "any" \/ WellFormed(f[3], FALSE)), "signatures of the built in functions", 0)
         /\ reg' = Builtin(e.plugins)
    [] e.op = "load" ->
         /\ RegRules(Fresh(e), e.regs)
         /\ Rule((e.err = 0) = CanLoad(reg, e, IdOf(e), NsOf(e)), "loading of the plugin", <<IdOf(e), NsOf(e)>>)
         /\ reg' = IF e.err = 0 THEN Loaded(reg, e) ELSE reg
    [] e.op = "rload" -> \* by several threads at once, all with one id or all with one namespace
         LET won == {i \in 1..Len(e.loads) : e.loads[i].err = 0}
         IN /\ \A i \in 1..Len(e.loads) : RegRules(Fresh(e.loads[i]), e.loads[i].regs)
            /\ Rule(Cardinality(won) = IF \A i \in 1..Len(e.loads) : CanLoad(reg, e.loads[i], IdOf(e.loads[i]), NsOf(e.loads[i])) THEN 1 ELSE 0, "plugins loaded at the same time", won)
            /\ reg' = IF won = {} THEN reg ELSE Loaded(reg, e.loads[CHOOSE i \in won : TRUE])
    [] e.op = "sig" -> \* a function not to be used again
         /\ Rule((e.ok # 0) = (e.any = 1 \/ WellFormed(e.s, FALSE)) /\ e.there = e.ok, "signature", 0)
         /\ UNCHANGED reg
    [] e.op = "reg" ->
         /\ Rule((e.ok # 0) = CanRegister(reg[e.pl], e.n, e.a, e.r), "registerFunction", reg[e.pl])
         /\ reg' = [reg EXCEPT ![e.pl] = Register(@, e.n, e.a, e.r)]
    [] e.op = "race" ->  \* from several threads; equal names come with equal signatures
         LET names == {q.n : q \in Range(e.regs)}
             oks(n) == Cardinality({i \in 1..Len(e.regs) : e.regs[i].n = n /\ e.regs[i].ok # 0})
             one(n) == CHOOSE q \in Range(e.regs) : q.n = n
         IN /\ \A n \in names : Rule(oks(n) = IF CanRegister(reg[e.pl], n, one(n).a, one(n).r) THEN 1 ELSE 0, "registrations of one name at the same time", n)
            /\ reg' = [reg EXCEPT ![e.pl] = RegisterAll(@, e.regs)]
    [] e.op = "enum" ->
         /\ Rule(Len(e.plugins) = Cardinality(DOMAIN reg) /\ {p.id : p \in Range(e.plugins)} = DOMAIN reg, "plugins", DOMAIN reg)
         /\ \A p \in Range(e.plugins) : Rule(Same(reg[p.id], p) /\ Range(p.fns) = Listed(reg[p.id]) /\ Len(p.fns) = Cardinality(DOMAIN reg[p.id].fns), "functions", Listed(reg[p.id]))
         /\ UNCHANGED reg
    [] e.op = "look" ->
         /\ CASE e.kind = "id" -> Rule(e.found = IF e.x \in DOMAIN reg THEN e.x ELSE "", "lookup", 0)
              [] e.kind = "ns" -> Rule(IF \E x \in DOMAIN reg : reg[x].ns = e.x THEN e.found \in DOMAIN reg /\ reg[e.found].ns = e.x ELSE e.found = "", "lookup", 0)
              [] OTHER -> Rule(e.found = IF e.x \in DOMAIN reg[e.pl].fns THEN e.x ELSE "", "lookup", DOMAIN reg[e.pl].fns)
         /\ UNCHANGED reg
    [] e.op = "inv" ->
         LET known == e.fn \in DOMAIN reg[e.pl].fns
             good == known /\ Accepts(reg[e.pl].fns[e.fn].args, e.args)
         IN /\ Rule(e.ran = IF good /\ e.lib = 0 THEN 1 ELSE 0, "function runs", IF known THEN reg[e.pl].fns[e.fn] ELSE 0)
            /\ Rule(good \/ e.err = 1, "error for a call that is not accepted", 0)
            /\ Rule(~good \/ e.lib = 1 \/ (e.seen = 1 /\ e.out = 1), "arguments and results passed unchanged", 0)
            /\ UNCHANGED reg
Init == l = 1 /\ reg = <<>>
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
