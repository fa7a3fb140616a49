----------------------------- MODULE VisitTrace -----------------------------
(* Recorded walks against Visit.tla.                                            *)
EXTENDS Visit, TLC, Json, IOUtils
VARIABLES i, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
FirstOff(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                      off == {k \in 1..m : a[k] # b[k]}
                  IN IF off = {} THEN m + 1 ELSE CHOOSE k \in off : \A j \in off : k <= j
Check(n) ==
  LET r == Recs[n]
      w == Walk(r.t, r.script)
  IN /\ IF r.events = w.ev THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> n, why |-> "the walk is not as specified", at |-> FirstOff(r.events, w.ev)]))
     /\ IF r.failed = (~w.ok) THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> n, why |-> "the walk ends otherwise", at |-> 0]))
     /\ IF r.skipped = (r.script.prepare = "skip") THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> n, why |-> "skipping is reported otherwise", at |-> 0]))
Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
