------------------------------- MODULE Frames -------------------------------
(* Frames as values sharing plane buffers, maps holding references to frames,
   and the accounting of buffers.  Operations are pure functions on the state
     fr:   frame -> [sh, b (buffer of each plane), pr (properties), refs]
     buf:  buffer -> [v (content), size, rc]
     mp:   map -> sequence of frames
   A frame dies with its last reference; a buffer with the last frame using it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(f, k, v) == (k :> v) @@ f
RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumSet(f, D \ {x})
Used(s) == s.used
Empty == [fr |-> <<>>, buf |-> <<>>, mp |-> <<>>, used |-> 0, nb |-> 1]

Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
\* a buffer gets k more users
Share(s, bs) == [s EXCEPT !.buf = [x \in DOMAIN @ |-> [@[x] EXCEPT !.rc = @ + Count(bs, x)]]]
DropBuf(s, bs) ==
  LET left == [x \in DOMAIN s.buf |-> s.buf[x].rc - Count(bs, x)]
      dead == {x \in DOMAIN s.buf : left[x] = 0}
  IN [s EXCEPT !.buf = [x \in DOMAIN s.buf \ dead |-> [s.buf[x] EXCEPT !.rc = left[x]]],
               !.used = @ - SumSet([x \in dead |-> s.buf[x].size], dead)]
NewBuf(s, v, size) == [s EXCEPT !.buf = Put(@, s.nb, [v |-> v, size |-> size, rc |-> 1]), !.nb = @ + 1, !.used = @ + size]

\* one reference less
Release(s, f) ==
  IF s.fr[f].refs > 1 THEN [s EXCEPT !.fr[f].refs = @ - 1]
  ELSE LET bs == s.fr[f].b
       IN DropBuf([s EXCEPT !.fr = [x \in DOMAIN @ \ {f} |-> @[x]]], bs)
RECURSIVE ReleaseAll(_, _)
ReleaseAll(s, q) == IF q = <<>> THEN s ELSE ReleaseAll(Release(s, q[1]), Tail(q))
RECURSIVE RefAll(_, _)
RefAll(s, q) == IF q = <<>> THEN s ELSE RefAll([s EXCEPT !.fr[q[1]].refs = @ + 1], Tail(q))

PropsFrom(s, src) == IF src < 0 THEN <<>> ELSE s.fr[src].pr
\* a frame whose planes are all new; vals: content per buffer, sizes: size per buffer
RECURSIVE NewBufs(_, _, _)
NewBufs(s, vals, sizes) == IF vals = <<>> THEN s ELSE NewBufs(NewBuf(s, vals[1], sizes[1]), Tail(vals), Tail(sizes))
AddFrame(s, f, sh, vals, sizes, src) ==
  LET t == NewBufs(s, vals, sizes)
  IN [t EXCEPT !.fr = Put(@, f, [sh |-> sh, b |-> [j \in 1..Len(vals) |-> s.nb + j - 1], pr |-> PropsFrom(s, src), refs |-> 1])]
CopyFrame(s, f, src) == LET t == Share(s, s.fr[src].b) IN [t EXCEPT !.fr = Put(@, f, [s.fr[src] EXCEPT !.refs = 1])]
\* from[p] = <<frame, plane>> or <<-1, _>>: planes are shared with their source or new
RECURSIVE AddPlanes(_, _, _, _, _, _)
AddPlanes(s, bs, from, vals, sizes, p) ==
  IF p > Len(from) THEN [s |-> s, b |-> bs]
  ELSE IF from[p][1] >= 0
       THEN LET x == s.fr[from[p][1]].b[from[p][2] + 1] IN AddPlanes(Share(s, <<x>>), Append(bs, x), from, vals, sizes, p + 1)
       ELSE AddPlanes(NewBuf(s, vals[p], sizes[p]), Append(bs, s.nb), from, vals, sizes, p + 1)
FromPlanes(s, f, sh, from, vals, sizes, src) ==
  LET r == AddPlanes(s, <<>>, from, vals, sizes, 1)
  IN [r.s EXCEPT !.fr = Put(@, f, [sh |-> sh, b |-> r.b, pr |-> PropsFrom(s, src), refs |-> 1])]
Private(s, f, p) == s.buf[s.fr[f].b[p]].rc = 1
\* make plane p of f private, then change one position (q) of channel c of it
Detach(s, f, p, size) ==
  LET x == s.fr[f].b[p] IN
  IF s.buf[x].rc = 1 THEN s
  ELSE LET t == NewBuf(DropBuf(s, <<x>>), s.buf[x].v, size) IN [t EXCEPT !.fr[f].b[p] = s.nb]
WriteV(s, f, p, q, v) == [s EXCEPT !.buf[s.fr[f].b[p]].v[q] = v]
WriteC(s, f, c, q, v) == [s EXCEPT !.buf[s.fr[f].b[1]].v[c][q] = v]

SetProp(s, f, k, v, app) ==
  [s EXCEPT !.fr[f].pr = Put(@, k, IF app /\ k \in DOMAIN @ THEN Append(@[k], v) ELSE <<v>>)]
DelProp(s, f, k) == [s EXCEPT !.fr[f].pr = [x \in DOMAIN @ \ {k} |-> @[x]]]
CopyProps(s, f, src) == [s EXCEPT !.fr[f].pr = s.fr[src].pr @@ @]
MapOf(s, m) == IF m \in DOMAIN s.mp THEN s.mp[m] ELSE <<>>
MapSet(s, m, f, app) ==
  LET t == RefAll(s, <<f>>)
      u == IF app THEN t ELSE ReleaseAll(t, MapOf(s, m))
  IN [u EXCEPT !.mp = Put(@, m, IF app THEN Append(MapOf(s, m), f) ELSE <<f>>)]
MapClear(s, m) == LET t == ReleaseAll(s, MapOf(s, m)) IN [t EXCEPT !.mp = Put(@, m, <<>>)]
MapCopy(s, a, b) ==
  IF MapOf(s, a) = <<>> THEN s
  ELSE LET t == ReleaseAll(RefAll(s, MapOf(s, a)), MapOf(s, b)) IN [t EXCEPT !.mp = Put(@, b, MapOf(s, a))]
=============================================================================
