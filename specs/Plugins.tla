------------------------------ MODULE Plugins -------------------------------
(* Signatures of plugin functions (a grammar over strings), what a call has to
   look like, and the registry of plugins and functions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[j] : j \in 1..Len(q)}
Put(f, k, v) == (k :> v) @@ f
At(s, i) == SubSeq(s, i, i)
Alpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
AlNum == Alpha \cup {"0","1","2","3","4","5","6","7","8","9","_"}
Identifier(s) == Len(s) > 0 /\ At(s, 1) \in Alpha /\ \A i \in 2..Len(s) : At(s, i) \in AlNum
\* the non-empty parts of s between characters d
RECURSIVE SplitR(_, _, _, _, _)
SplitR(s, d, i, cur, acc) ==
  IF i > Len(s) THEN IF cur = "" THEN acc ELSE Append(acc, cur)
  ELSE IF At(s, i) = d THEN SplitR(s, d, i + 1, "", IF cur = "" THEN acc ELSE Append(acc, cur))
  ELSE SplitR(s, d, i + 1, cur \o At(s, i), acc)
Split(s, d) == SplitR(s, d, 1, "", <<>>)
Types4 == {"int", "float", "data", "vnode", "anode", "vframe", "aframe", "func"}
Types3 == {"int", "float", "data", "clip", "frame", "func"}
Today(t) == IF t = "clip" THEN "vnode" ELSE IF t = "frame" THEN "vframe" ELSE t
Bad == [ok |-> FALSE]
\* one "name:type[]:opt:empty" specifier
Arg(a, v3) ==
  LET p == Split(a, ":") IN
  IF p = <<"any">> THEN [ok |-> TRUE, any |-> TRUE]
  ELSE IF Len(p) < 2 THEN Bad
  ELSE LET n == Len(p[2])
           arr == n > 2 /\ SubSeq(p[2], n - 1, n) = "[]"
           t == IF arr THEN SubSeq(p[2], 1, n - 2) ELSE p[2]
           mods == SubSeq(p, 3, Len(p))
       IN IF t \in (IF v3 THEN Types3 ELSE Types4) /\ Identifier(p[1]) /\ Range(mods) \subseteq {"opt", "empty"}
             /\ Cardinality(Range(mods)) = Len(mods) /\ ("empty" \in Range(mods) => arr)
          THEN [ok |-> TRUE, any |-> FALSE, name |-> p[1], type |-> Today(t), arr |-> arr, opt |-> "opt" \in Range(mods), empty |-> "empty" \in Range(mods)]
          ELSE Bad
Args(s, v3) == LET q == Split(s, ";") IN [i \in 1..Len(q) |-> Arg(q[i], v3)]
WellFormed(s, v3) == \A i \in 1..Len(Args(s, v3)) : Args(s, v3)[i].ok
RECURSIVE Show(_)
Show(q) == IF q = <<>> THEN "" ELSE LET a == q[1] IN
  (IF a.any THEN "any" ELSE a.name \o ":" \o a.type \o (IF a.arr THEN "[]" ELSE "") \o (IF a.opt THEN ":opt" ELSE "") \o (IF a.empty THEN ":empty" ELSE "")) \o ";" \o Show(Tail(q))
\* m: sequence of <<key, type, number of values>>
Accepts(sig, m) ==
  LET val == [k \in {m[j][1] : j \in 1..Len(m)} |-> LET j == CHOOSE j \in 1..Len(m) : m[j][1] = k IN m[j]]
      named == {i \in 1..Len(sig) : ~sig[i].any}
  IN /\ \A i \in named : LET a == sig[i] IN
          IF a.name \in DOMAIN val THEN val[a.name][2] = a.type /\ (a.arr \/ val[a.name][3] <= 1) /\ (a.empty \/ val[a.name][3] >= 1)
          ELSE a.opt
     /\ (\E i \in 1..Len(sig) : sig[i].any) \/ DOMAIN val \subseteq {sig[i].name : i \in named}
\* registry: id -> [ns, v3, ro, fns]
CanRegister(p, n, a, r) == /\ ~p.ro /\ Identifier(n) /\ n \notin DOMAIN p.fns
                           /\ WellFormed(a, p.v3) /\ (r = "any" \/ WellFormed(r, p.v3))
Register(p, n, a, r) == IF CanRegister(p, n, a, r)
                        THEN [p EXCEPT !.fns = Put(@, n, [args |-> Args(a, p.v3), shown |-> IF p.v3 THEN Show(Args(a, TRUE)) ELSE a, ret |-> r])] ELSE p
RECURSIVE RegisterAll(_, _)
RegisterAll(p, q) == IF q = <<>> THEN p ELSE RegisterAll(Register(p, q[1].n, q[1].a, q[1].r), Tail(q))
CanLoad(reg, e, id, ns) == /\ e.entry = 1 /\ e.cfg = 1 /\ e.api \in {3, 4} /\ id \notin DOMAIN reg /\ \A x \in DOMAIN reg : reg[x].ns # ns
=============================================================================
