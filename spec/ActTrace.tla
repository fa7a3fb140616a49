------------------------------ MODULE ActTrace ------------------------------
(* Recorded editing sessions against the session of Actions.tla: after every    *)
(* step the drawing, the selection, the history and the traces of state in the  *)
(* document are compared.                                                       *)
EXTENDS Actions, TLC, Json, IOUtils
VARIABLES i, done
Recs == ndJsonDeserialize(IOEnv.TRACE)

SetOf(x) == {x[k] : k \in DOMAIN x}
Obj(f) == [x \in DOMAIN f |-> f[x]]
Node(n) == [n EXCEPT !.cls = SetOf(n.cls)]
Doc(d) == [k \in DOMAIN d |-> Node(d[k])]
SameNode(a, b) == /\ a.n = b.n /\ a.p = b.p /\ a.t = b.t /\ a.cls = b.cls /\ a.tr = b.tr /\ InForce(a.sty) = InForce(b.sty)
                  /\ DOMAIN a.at = DOMAIN b.at /\ \A x \in DOMAIN a.at : a.at[x] = b.at[x]
SameDoc(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : SameNode(a[k], b[k])

Complain(n, k, what, why) == PrintT("@@" \o ToJson([rec |-> n, step |-> k, what |-> what, why |-> why]))
Expect(ok, n, k, what, why) == IF ok THEN TRUE ELSE Complain(n, k, what, why)
(* o: observation after the step                                                *)
Judge(n, k, a, s, o) ==
  /\ Expect(o.error = (~s.ok), n, k, "answer", "the action answers otherwise")
  /\ IF "doc" \in DOMAIN o THEN Expect(SameDoc(Doc(o.doc), s.d), n, k, "drawing", "the drawing is not as specified") ELSE TRUE
  /\ IF "sel" \in DOMAIN o /\ s.ok
     THEN /\ Expect(SetOf(o.sel) = s.sel, n, k, "selection", "the selection is not as specified")
          /\ Expect(Len(o.sel) = Cardinality(SetOf(o.sel)), n, k, "selection", "an element is selected twice")
          /\ Expect(o.hist = s.hist, n, k, "history", "the history is not as specified")
     ELSE TRUE
  /\ Expect(o.quiet, n, k, "deriving", "deriving state changes the document or fails")
  /\ IF s.ok /\ "trace" \in DOMAIN o THEN Expect(o.trace = s.kept, n, k, "trace", "the document carries state it should not, or none") ELSE TRUE
RECURSIVE Follow(_, _, _, _)
Follow(n, r, s, k) ==
  IF k > Len(r.steps) THEN TRUE
  ELSE LET t == Apply(s, r.steps[k]) IN Judge(n, k, r.steps[k], t, r.obs[k]) /\ Follow(n, r, t, k + 1)
Check(n) == Follow(n, Recs[n], Begin(Doc(Recs[n].doc)), 1)

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
