----------------------------- MODULE PluginsMC ------------------------------
(* Design model: plugins loaded and functions registered by two threads.  A
   plugin is put together outside of the lock and entered into the registry in
   one step (AtomicLoad) that checks id and namespace; functions are entered in
   one step (AtomicReg).  The ASSUMEs are laws of the signature grammar. *)
EXTENDS Plugins
CONSTANTS AtomicLoad, AtomicReg, MaxOps
Thr == {1, 2}
Ids == {"i1", "i2"}
Nss == {"n1", "n2"}
Names == {"f", "1f"}
Sigs == {"a:int;", "a:int:empty;"}
Tok == {"a", "1a", "any", ":", ";", "int", "int[]", "clip", "opt", "empty"}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE {t \o s : t \in Tok, s \in Strings(n - 1)} \cup Strings(n - 1)
S3 == Strings(4)
NoAny(s) == \A i \in 1..Len(Args(s, TRUE)) : Args(s, TRUE)[i].ok /\ ~Args(s, TRUE)[i].any
\* what a v3 plugin registers is shown as the same signature in today's words
ASSUME \A s \in S3 : WellFormed(s, TRUE) /\ NoAny(s) => WellFormed(Show(Args(s, TRUE)), FALSE) /\ Args(Show(Args(s, TRUE)), FALSE) = Args(s, TRUE)
\* printing is a normal form
ASSUME \A s \in S3 : WellFormed(s, FALSE) => Args(Show(Args(s, FALSE)), FALSE) = Args(s, FALSE)
\* an empty signature takes nothing, "any" takes anything, an optional argument may be left out, a required one not
ASSUME Accepts(<<>>, <<>>) /\ ~Accepts(<<>>, <<<<"x", "int", 1>>>>) /\ Accepts(Args("any", FALSE), <<<<"x", "int", 1>>>>)
ASSUME \A ty \in Types4 : \A n \in 0..2 : \A mods \in {"", ":opt"} :
         LET one == Args("x:" \o ty \o mods, FALSE) many == Args("x:" \o ty \o "[]" \o mods, FALSE) emp == Args("x:" \o ty \o "[]" \o mods \o ":empty", FALSE)
             m == <<<<"x", ty, n>>>> IN
         /\ Accepts(one, m) = (n = 1) /\ Accepts(many, m) = (n >= 1) /\ Accepts(emp, m)
         /\ Accepts(one, <<>>) = (mods # "") /\ \A ty2 \in Types4 \ {ty} : ~Accepts(emp, <<<<"x", ty2, n>>>>)
VARIABLES reg, loaded, th, count
vars == <<reg, loaded, th, count>>
Init == reg = <<>> /\ loaded = {} /\ th = [t \in Thr |-> [at |-> "idle"]] /\ count = 0
Mk(id, ns, ro, n, a) == [id |-> id, ns |-> ns, p |-> Register([ns |-> ns, v3 |-> FALSE, ro |-> FALSE, fns |-> <<>>], n, a, "any"), ro |-> ro]
Free(x) == x.id \notin DOMAIN reg /\ \A y \in DOMAIN reg : reg[y].ns # x.ns
\* an insertion into a map keyed by id leaves what is there
Insert(x) == /\ reg' = IF x.id \in DOMAIN reg THEN reg ELSE Put(reg, x.id, [x.p EXCEPT !.ro = x.ro])
             /\ loaded' = loaded \cup {<<count, x.id, x.ns>>}
Start(t) == th[t].at = "idle" /\ count < MaxOps /\ count' = count + 1 /\ \E id \in Ids, ns \in Nss, ro \in BOOLEAN, n \in Names, a \in Sigs :
              th' = [th EXCEPT ![t] = [at |-> "load", x |-> Mk(id, ns, ro, n, a)]] /\ UNCHANGED <<reg, loaded>>
Load(t) == /\ th[t].at = "load"
           /\ IF ~Free(th[t].x) THEN th' = [th EXCEPT ![t] = [at |-> "idle"]] /\ UNCHANGED <<reg, loaded>>
              ELSE IF AtomicLoad THEN Insert(th[t].x) /\ th' = [th EXCEPT ![t] = [at |-> "idle"]]
              ELSE th' = [th EXCEPT ![t] = [at |-> "insert", x |-> th[t].x]] /\ UNCHANGED <<reg, loaded>>
           /\ UNCHANGED count
LoadEnd(t) == th[t].at = "insert" /\ Insert(th[t].x) /\ th' = [th EXCEPT ![t] = [at |-> "idle"]] /\ UNCHANGED count
Reg(t) == /\ th[t].at = "idle" /\ count < MaxOps /\ count' = count + 1 /\ UNCHANGED <<reg, loaded>>
          /\ \E id \in DOMAIN reg, n \in Names, a \in Sigs : th' = [th EXCEPT ![t] = [at |-> "reg", id |-> id, n |-> n, a |-> a]]
Reg2(t) == /\ th[t].at = "reg"
           /\ IF ~CanRegister(reg[th[t].id], th[t].n, th[t].a, "any") THEN th' = [th EXCEPT ![t] = [at |-> "idle"]] /\ UNCHANGED <<reg, loaded>>
              ELSE IF AtomicReg THEN /\ reg' = [reg EXCEPT ![th[t].id] = Register(@, th[t].n, th[t].a, "any")]
                                     /\ loaded' = loaded \cup {<<count, th[t].id, "fn", th[t].n>>} /\ th' = [th EXCEPT ![t] = [at |-> "idle"]]
              ELSE th' = [th EXCEPT ![t].at = "regin"] /\ UNCHANGED <<reg, loaded>>
           /\ UNCHANGED count
Reg3(t) == /\ th[t].at = "regin" /\ reg' = [reg EXCEPT ![th[t].id].fns = Put(@, th[t].n, [args |-> Args(th[t].a, FALSE), shown |-> th[t].a, ret |-> "any"])]
           /\ loaded' = loaded \cup {<<count + 10 * t, th[t].id, "fn", th[t].n>>} /\ th' = [th EXCEPT ![t] = [at |-> "idle"]] /\ UNCHANGED count
Next == \E t \in Thr : Start(t) \/ Load(t) \/ LoadEnd(t) \/ Reg(t) \/ Reg2(t) \/ Reg3(t)
Spec == Init /\ [][Next]_vars
UniqueNamespaces == \A x, y \in DOMAIN reg : reg[x].ns = reg[y].ns => x = y
OneWinner == /\ \A a, b \in loaded : Len(a) = 3 /\ Len(b) = 3 /\ (a[2] = b[2] \/ a[3] = b[3]) => a = b
             /\ \A a, b \in loaded : Len(a) = 4 /\ Len(b) = 4 /\ a[2] = b[2] /\ a[4] = b[4] => a = b
GoodNames == \A x \in DOMAIN reg : \A n \in DOMAIN reg[x].fns : Identifier(n) /\ WellFormed(reg[x].fns[n].shown, FALSE)
ReadOnlyKept == [][\A x \in DOMAIN reg : reg[x].ro => reg'[x] = reg[x]]_vars
=============================================================================
