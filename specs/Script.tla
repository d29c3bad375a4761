------------------------------- MODULE Script -------------------------------
(* VSScript: what a handle's variables, outputs, error and exit code are     *)
(* after evaluating scripts in it. A script is a sequence of statements, run *)
(* until one fails.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Fresh == [vars |-> <<>>, outs |-> <<>>, thr |-> 0, status |-> "ok", exit |-> 0, core |-> 0]
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Num(n) == <<"i", ToString(n), <<>>>>
(* how = [file, cwd]: evaluated from a file, with the working directory set *)
Step(s, st, how) ==
    IF s.status # "ok" THEN s
    ELSE CASE st.op = "set" -> [s EXCEPT !.vars = Put(@, st.x, st.v)]
           [] st.op = "copy" -> IF Has(s.vars, st.y) THEN [s EXCEPT !.vars = Put(@, st.x, s.vars[st.y])] ELSE [s EXCEPT !.status = "error"]
           [] st.op = "del" -> IF Has(s.vars, st.x) THEN [s EXCEPT !.vars = Drop(@, st.x)] ELSE [s EXCEPT !.status = "error"]
           [] st.op = "has" -> [s EXCEPT !.vars = Put(@, st.x, Num(IF Has(s.vars, st.y) THEN 1 ELSE 0))]
           [] st.op = "out" -> [s EXCEPT !.outs = Put(@, st.i, <<st.m, st.a, st.alt>>)]
           [] st.op = "outs" -> [s EXCEPT !.vars = Put(@, st.x, Num(Cardinality(DOMAIN s.outs)))]
           [] st.op = "fe" -> [s EXCEPT !.vars = Put(@, st.x, Num(2 + Cardinality(DOMAIN s.outs)))]     \* counted in a callback on another thread
           [] st.op = "clear" -> [s EXCEPT !.outs = Drop(@, st.i)]
           [] st.op = "clearall" -> [s EXCEPT !.outs = <<>>]
           [] st.op = "cwd" -> [s EXCEPT !.vars = Put(@, st.x, Num(IF how.file /\ how.cwd THEN 1 ELSE 0))]
           [] st.op = "name" -> [s EXCEPT !.vars = Put(@, st.x, Num(1))]
           [] st.op = "thr" -> [s EXCEPT !.thr = st.n]
           [] st.op = "thrget" -> [s EXCEPT !.vars = Put(@, st.x, IF s.thr = 0 THEN <<"?", "", <<>>>> ELSE Num(s.thr))]
           [] st.op = "raise" -> [s EXCEPT !.status = "error"]
           [] st.op = "exit" -> [s EXCEPT !.status = "exit", !.exit = st.code]
           [] OTHER -> s
Evaluate(s, prog, how) ==
    IF \E i \in 1..Len(prog) : prog[i].op = "syntax" THEN [s EXCEPT !.status = "error"]
    ELSE FoldLeft(LAMBDA a, st : Step(a, st, how), [s EXCEPT !.status = "ok", !.exit = IF s.status = "ok" THEN @ ELSE -1], prog)

(* what getVariable puts in the map: the elements, or nothing *)
Elems(v) == IF v[1] = "l" THEN v[3] ELSE <<v>>
Kinds(v) == {Elems(v)[i][1] : i \in 1..Len(Elems(v))}
Storable(v) == Kinds(v) \subseteq {"i", "f", "s", "b", "n"} /\ (Kinds(v) \subseteq {"s", "b"} \/ Cardinality(Kinds(v)) <= 1)
(* a variable set from a map with n elements *)
FromMap(l) == IF Len(l) = 1 THEN l[1] ELSE <<"l", "", l>>
=============================================================================
