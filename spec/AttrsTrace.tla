----------------------------- MODULE AttrsTrace -----------------------------
(* Validates recorded attribute histories: after every operation the queries    *)
(* answer what one of the allowed next states says.                             *)
EXTENDS Attrs, Json, IOUtils
VARIABLES i, l, at, ok

Recs == ndJsonDeserialize(IOEnv.TRACE)
Words == <<"a", "b", "c">>

Init == i = 0 /\ l = 0 /\ at = <<>> /\ ok = TRUE
Start == /\ i = 0
         /\ \E r \in 1..Len(Recs) : i' = r /\ at' = Recs[r].at
         /\ UNCHANGED <<l, ok>>
Say(o, why, d) == PrintT("@@" \o ToJson([rec |-> i, step |-> l + 1, op |-> o.op, why |-> why, detail |-> d]))
Step ==
  /\ i > 0 /\ ok /\ l < Len(Recs[i].ops)
  /\ LET o == Recs[i].ops[l + 1]
         ob == Recs[i].obs[l + 1]
         r == Apply(at, o)
         fit == {t \in r.next : View(t, Words) = ob.view}
     IN /\ l' = l + 1
        /\ UNCHANGED i
        /\ IF ob.note # "" THEN ok' = FALSE /\ UNCHANGED at /\ Say(o, ob.note, "")
           ELSE IF ob.ret # r.ret THEN ok' = FALSE /\ UNCHANGED at /\ Say(o, "answer", ToString(<<ob.ret, r.ret>>))
           ELSE IF fit = {} THEN ok' = FALSE /\ UNCHANGED at /\ Say(o, "view", ToString(<<at, ob.view>>))
           ELSE ok' = TRUE /\ at' = CHOOSE t \in fit : TRUE
Next == Start \/ Step
Spec == Init /\ [][Next]_<<i, l, at, ok>>
=============================================================================
