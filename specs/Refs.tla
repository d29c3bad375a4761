-------------------------------- MODULE Refs --------------------------------
(* Which objects of a core are alive.  An object (filter, function, map, frame,
   log handler) is alive while a handle of it is held outside or an alive object
   holds it: alive objects are those reachable from the handles.
     user: object -> number of handles        ent: object -> key -> sequence of objects
     fly:  objects kept by requests in progress *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(f, k, v) == (k :> v) @@ f
Range(q) == {q[j] : j \in 1..Len(q)}
Held(ent, o) == UNION {Range(ent[o][k]) : k \in DOMAIN ent[o]}
RECURSIVE Close(_, _, _)
Close(ent, seen, new) == IF new = {} THEN seen ELSE LET s2 == seen \cup new IN Close(ent, s2, (UNION {Held(ent, o) : o \in new}) \ s2)
\* library filters: what they may or may not hold is under the key "may"
Sure(ent) == [o \in DOMAIN ent |-> [k \in DOMAIN ent[o] \ {"may"} |-> ent[o][k]]]
Roots(s) == {o \in DOMAIN s.user : s.user[o] > 0} \cup s.fly
Alive(s) == Close(s.ent, {}, Roots(s))
MustLive(s) == Close(Sure(s.ent), {}, Roots(s))
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumOver(f, D \ {x})
Empty == [user |-> <<>>, ent |-> <<>>, size |-> <<>>, quiet |-> {}, node |-> {}, cached |-> {}, att |-> <<>>, fly |-> {}]
\* forget everything that is no longer alive
Trim(s, gone) ==
  LET A == Alive(s) \ gone IN
  [s EXCEPT !.user = [o \in A |-> @[o]], !.ent = [o \in A |-> [k \in DOMAIN @[o] |-> SelectSeq(@[o][k], LAMBDA x : x \notin gone)]], !.size = [o \in A |-> @[o]],
            !.quiet = @ \cap A, !.node = @ \cap A, !.cached = @ \cap A, !.att = [o \in DOMAIN @ \cap A |-> @[o]]]
New(s, id, quiet, size, hold) ==
  [s EXCEPT !.user = Put(@, id, 1), !.ent = Put(@, id, ("own" :> hold)), !.size = Put(@, id, size), !.quiet = IF quiet THEN @ \cup {id} ELSE @]
Handle(s, id, k) == [s EXCEPT !.user[id] = @ + k]
RECURSIVE DropAll(_, _)
DropAll(s, q) == IF q = <<>> THEN s ELSE DropAll(Handle(s, q[1], -1), Tail(q))
PutIn(s, h, k, x, app) == [s EXCEPT !.ent[h] = Put(@, k, IF app /\ k \in DOMAIN @ THEN Append(@[k], x) ELSE <<x>>)]
Clear(s, h) == [s EXCEPT !.ent[h] = <<>>]
DelKey(s, h, k) == [s EXCEPT !.ent[h] = [x \in DOMAIN @ \ {k} |-> @[x]]]
CopyInto(s, a, b) == [s EXCEPT !.ent[b] = s.ent[a] @@ @]
\* a cached filter keeps the frames it made
UnCache(s, N) == [s EXCEPT !.ent = [o \in DOMAIN @ |-> IF o \in N THEN [k \in DOMAIN @[o] \cap {"own", "may"} |-> @[o][k]] ELSE @[o]]]
=============================================================================
