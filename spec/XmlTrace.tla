------------------------------ MODULE XmlTrace ------------------------------
(* Validates recorded writings of a document: each says what the document said, *)
(* and reading and writing it again changes nothing.                            *)
EXTENDS Xml, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

RECURSIVE Diff(_, _)
Diff(x, y) ==
  IF Len(x) # Len(y) THEN <<"items", ToString([k \in DOMAIN x |-> x[k][1]]), ToString([k \in DOMAIN y |-> y[k][1]])>>
  ELSE LET ks == {k \in DOMAIN x : x[k] # y[k]}
           k == CHOOSE k \in ks : \A m \in ks : k <= m
       IN IF x[k][1] # "element" \/ y[k][1] # "element" THEN <<"item", ToString(x[k]), ToString(y[k])>>
          ELSE IF SubSeq(x[k], 1, 3) # SubSeq(y[k], 1, 3) THEN <<"name", ToString(SubSeq(x[k], 1, 3)), ToString(SubSeq(y[k], 1, 3))>>
          ELSE IF x[k][4] # y[k][4] THEN <<"attributes of " \o x[k][3], ToString(x[k][4] \ y[k][4]), ToString(y[k][4] \ x[k][4])>>
          ELSE Diff(x[k][5], y[k][5])

Refuse(a, why, x, y) == PrintT("@@" \o ToJson([rec |-> i, after |-> a, why |-> why, want |-> x, got |-> y]))
CheckOne(r, a) ==
  LET o == r.after[a].opt
      want == Says(r.before, 1, o)
      got == Says(r.after[a].doc, 1, o)
  IN /\ IF Bound(r.after[a].doc) THEN TRUE ELSE Refuse(a, "a prefix is not declared or an attribute repeated", "", "")
     /\ IF want = got THEN TRUE ELSE LET d == Diff(want, got) IN Refuse(a, d[1], d[2], d[3])
     /\ IF r.after[a].again THEN TRUE ELSE Refuse(a, "writing it again changes it", "", "")
Check(r) == \A a \in DOMAIN r.after : CheckOne(r, a)

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
