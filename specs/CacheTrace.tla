----------------------------- MODULE CacheTrace ----------------------------
(* C05: which filters run for which request, given the cache configuration. *)
EXTENDS Cache, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, th, nd, ca, mru     \* nd: id -> node description, ca: id -> cache, mru: accesses of the last request
vars == <<l, th, nd, ca, mru>>
Put(f, k, v) == (k :> v) @@ f
Fail(what, exp) == PrintT(<<"MISMATCH", l, what, exp, T[l]>>) /\ FALSE
Rule(b, what, exp) == IF b THEN TRUE ELSE Fail(what, exp)
RECURSIVE PatternsOf(_, _, _)
PatternsOf(n, v, k) == IF k > 30 THEN <<>> ELSE (IF k \in DOMAIN n /\ n[k].dep = v THEN <<n[k].pat>> ELSE <<>>) \o PatternsOf(n, v, k + 1)
Cons(n, v) == PatternsOf(n, v, 0)
AutoUpdate(c, n, v) == IF v < 0 THEN c ELSE [c EXCEPT ![v] = SetAuto(c[v], Cons(n, v))]

AddNode(e) ==
  /\ nd' = Put(nd, e.v, [dep |-> e.dep, pat |-> e.pat, nf |-> e.nf, plan |-> e.plan])
  /\ LET fresh == IF e.lin >= 0 THEN Linear(NewCache, th) ELSE NewCache
     IN ca' = AutoUpdate(Put(ca, e.v, fresh), nd', e.dep)
  /\ Rule(e.lin >= 0 => e.lin = (th * 2 + DefaultSize) \div 2, "setLinearFilter result", (th * 2 + DefaultSize) \div 2)
  /\ mru' = {} /\ UNCHANGED th
FreeNode(e) ==
  LET n2 == [x \in DOMAIN nd \ {e.v} |-> nd[x]] IN
  /\ nd' = n2
  /\ ca' = AutoUpdate([x \in DOMAIN ca \ {e.v} |-> ca[x]], n2, nd[e.v].dep)
  /\ mru' = {} /\ UNCHANGED th
Upd(v, c) == ca' = [ca EXCEPT ![v] = c] /\ mru' = {} /\ UNCHANGED <<nd, th>>

Clamp(v, n) == IF n >= nd[v].nf THEN nd[v].nf - 1 ELSE n
\* does the logged request run the filter?  runs are logged innermost first
Enabled(c) == c.en
\* caches are only resized or trimmed every 500 ms: early in a session their content is known
Precise == T[l].ms < 400
MustHit(v, n) == LET c == ca[v] IN
  /\ Enabled(c)
  /\ \/ c.fx /\ ~c.fuzzy /\ Holds(c, n)
     \/ Precise /\ Holds(c, n)
     \/ ~c.fx /\ c.mx > 0 /\ <<v, n>> \in mru /\ Holds(c, n)
MayHit(v, n) == LET c == ca[v] IN Enabled(c) /\ (Holds(c, n) \/ (~Precise /\ (\E x \in c.old : x[1] = n)))
RECURSIVE InsertAll(_, _)
InsertAll(c, s) == IF s = <<>> THEN c ELSE InsertAll(Insert(c, s[1][1], s[1][2]), Tail(s))

\* walk down the chain: j runs are left to explain the access (v,n); result [ok, u, j, acc, ca, what]
RECURSIVE Serve(_, _, _, _, _)
Serve(v, n, j, runs, chs) ==
  LET c == chs[v]
      ran == j > 0 /\ runs[j].v = v /\ runs[j].n = n
  IN IF ~ran
     THEN IF ~MayHit(v, n) THEN [ok |-> FALSE, u |-> 0, j |-> j, ca |-> chs, acc |-> {}, what |-> <<"must run", v, n>>]
          ELSE LET x == IF Holds(c, n) THEN c.q[Held(c, n)] ELSE CHOOSE x \in c.old : x[1] = n
               IN [ok |-> TRUE, u |-> x[2], j |-> j, acc |-> {<<v, n>>}, what |-> <<>>,
                   ca |-> [chs EXCEPT ![v] = IF Holds(c, n) THEN Touch(c, n) ELSE Insert(c, n, x[2])]]
     ELSE IF MustHit(v, n) THEN [ok |-> FALSE, u |-> 0, j |-> j, ca |-> chs, acc |-> {}, what |-> <<"must be served from the cache", v, n>>]
     ELSE LET r == runs[j]
              below == IF nd[v].dep < 0 THEN [ok |-> TRUE, u |-> 0, j |-> j - 1, ca |-> chs, acc |-> {}, what |-> <<>>]
                       ELSE Serve(nd[v].dep, Clamp(nd[v].dep, nd[v].plan[n + 1]), j - 1, runs, chs)
              c1 == InsertAll(below.ca[v], r.ex)
              \* cacheFrame makes the frames around available whatever the request was
              c2 == IF c.en /\ (~c.lo \/ n = nd[v].nf - 1) THEN Insert(c1, n, r.u)
                    ELSE [c1 EXCEPT !.q = Without(@, n), !.old = {x \in @ : x[1] # n}]   \* it ran: it was not held
          IN IF ~below.ok THEN below
             ELSE IF below.u # r.in THEN [below EXCEPT !.ok = FALSE, !.what = <<"wrong input frame", v, n, below.u>>]
             ELSE [ok |-> TRUE, u |-> r.u, j |-> below.j, acc |-> below.acc \cup {<<v, n>>}, what |-> <<>>,
                   ca |-> [below.ca EXCEPT ![v] = c2]]
GetFrame(e) ==
  LET s == Serve(e.v, e.n, Len(e.runs), e.runs, ca) IN
  /\ Rule(s.ok, s.what, 0)
  /\ Rule(s.j = 0, "a filter ran that was not needed", s.j)
  /\ Rule(s.u = e.u, "another frame was returned", s.u)
  /\ ca' = s.ca /\ mru' = s.acc /\ UNCHANGED <<th, nd>>
Step == LET e == T[l] IN
  CASE e.op = "reset" -> th' = e.th /\ nd' = <<>> /\ ca' = <<>> /\ mru' = {}
    [] e.op = "node" -> AddNode(e)
    [] e.op = "free" -> FreeNode(e)
    [] e.op = "mode" -> Upd(e.v, SetMode(ca[e.v], e.m, Cons(nd, e.v)))
    [] e.op = "opts" -> Upd(e.v, SetOptions(ca[e.v], e.f, e.mx, e.h))
    [] e.op = "clr"  -> Upd(e.v, Clear(ca[e.v]))
    [] e.op = "clrall" -> ca' = [v \in DOMAIN ca |-> Clear(ca[v])] /\ mru' = {} /\ UNCHANGED <<nd, th>>
    [] e.op = "get"  -> GetFrame(e)
Init == l = 1 /\ th = 1 /\ nd = <<>> /\ ca = <<>> /\ mru = {}
Next == l <= Len(T) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
============================================================================
