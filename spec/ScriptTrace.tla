---------------------------- MODULE ScriptTrace -----------------------------
(* Validates recorded runs of single jobs over documents that may be scripted.  *)
EXTENDS Script, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

Check(r) ==
  /\ IF Scripted(r.plain) = r.scripted THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> i, job |-> "none", why |-> "a document is no longer (or newly) scripted once written"]))
  /\ \A j \in DOMAIN r.after :
       IF Respected(r.after[j].job, r.plain, r.after[j].doc) THEN TRUE
       ELSE PrintT("@@" \o ToJson([rec |-> i, job |-> r.after[j].job, why |-> "changed what a script or style sheet may refer to"]))

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
