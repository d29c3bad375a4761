------------------------------ MODULE FramesMC ------------------------------
(* Exhaustive histories over a few frames of two planes, against the meaning of
   independence: val is a plain value per frame which only writing that very
   frame changes.  Bad = "nodetach" / "leak" are broken variants that must fail. *)
EXTENDS Frames
CONSTANTS NF, Depth, Bad
VARIABLES s, val, n
vars == <<s, val, n>>
V == {0, 1}
Frs == 1..NF
Alive == DOMAIN s.fr
Fresh == CHOOSE f \in Frs : f \notin Alive
CanNew == Alive # Frs
Sz == <<4, 2>>
Vals(x) == <<<<x>>, <<x>>>>
Tick == n < Depth /\ n' = n + 1
RC(t, b) == LET F == DOMAIN t.fr IN Cardinality({<<f, p>> \in F \X {1, 2} : t.fr[f].b[p] = b})
DoNew(x) == CanNew /\ s' = AddFrame(s, Fresh, 0, Vals(x), Sz, -1) /\ val' = Put(val, Fresh, [pl |-> Vals(x), pr |-> <<>>])
DoCopy(f) == CanNew /\ s' = CopyFrame(s, Fresh, f) /\ val' = Put(val, Fresh, val[f])
DoPlanes(f, g) == CanNew /\ s' = FromPlanes(s, Fresh, 0, <<<<f, 0>>, <<g, 1>>>>, Vals(0), Sz, f)
                  /\ val' = Put(val, Fresh, [pl |-> <<val[f].pl[1], val[g].pl[2]>>, pr |-> val[f].pr])
DoWrite(f, p, v) == LET t == IF Bad = "nodetach" /\ p = 2 THEN s ELSE Detach(s, f, p, Sz[p]) IN
                    s' = WriteV(t, f, p, 1, v) /\ val' = [val EXCEPT ![f].pl[p] = <<v>>]
DoProp(f, v, app) == s' = SetProp(s, f, "a", v, app)
                     /\ val' = [val EXCEPT ![f].pr = Put(@, "a", IF app /\ "a" \in DOMAIN @ THEN Append(@["a"], v) ELSE <<v>>)]
Forget(t) == [f \in DOMAIN t.fr |-> val[f]]
DoFree(f) == LET t == Release(s, f) IN
             /\ s.fr[f].refs > Count(MapOf(s, 1), f)      \* the reference of the caller
             /\ s' = IF Bad = "leak" THEN [t EXCEPT !.used = IF n = 3 THEN s.used ELSE @] ELSE t
             /\ val' = Forget(t)
DoSet(f, app) == Len(MapOf(s, 1)) < 2 /\ LET t == MapSet(s, 1, f, app) IN s' = t /\ val' = Forget(t)
DoClear == LET t == MapClear(s, 1) IN s' = t /\ val' = Forget(t)
Init == s = Empty /\ val = <<>> /\ n = 0
Next == Tick /\
  \/ \E x \in V : DoNew(x)
  \/ \E f \in Alive : DoCopy(f) \/ DoFree(f) \/ DoSet(f, TRUE) \/ DoSet(f, FALSE)
  \/ \E f, g \in Alive : DoPlanes(f, g)
  \/ \E f \in Alive, p \in {1, 2}, v \in V : DoWrite(f, p, v)
  \/ \E f \in Alive, app \in BOOLEAN : DoProp(f, 1, app)
  \/ DoClear
Spec == Init /\ [][Next]_vars
Planes(f) == [p \in 1..2 |-> s.buf[s.fr[f].b[p]].v]
Independent == DOMAIN val = Alive /\ \A f \in Alive : Planes(f) = val[f].pl /\ s.fr[f].pr = val[f].pr
Counts == \A b \in DOMAIN s.buf : s.buf[b].rc = RC(s, b) /\ s.buf[b].rc > 0
Accounting == s.used = SumSet([b \in DOMAIN s.buf |-> s.buf[b].size], DOMAIN s.buf)
NothingLeft == Alive = {} => s.used = 0 /\ DOMAIN s.buf = {}
\* buffers are numbered as they are made: the number carries no meaning
=============================================================================
