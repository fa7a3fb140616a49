------------------------------ MODULE FilesTrace ------------------------------
(* Decides whether a run of the command left the files, and printed, what it had to. *)
EXTENDS Files, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

Tree(seq) == [p \in {seq[k][1] : k \in 1..Len(seq)} |-> seq[CHOOSE k \in 1..Len(seq) : seq[k][1] = p][2]]
Range1(s) == {s[k] : k \in 1..Len(s)}

Why(r) ==
  LET fs == Tree(r.tree)
      got == Tree(r.after)
      want == After(fs, r.cmd)
      \* directories made on the way to a place that turned out not to be writable, or for a file that fails
      spare == {p \in DOMAIN got \ DOMAIN want : got[p] = <<"dir">> /\ \E x \in Jobs(fs, r.cmd) : Dest(fs, r.cmd, x) # <<>> /\ Below(p, Dest(fs, r.cmd, x))}
  IN  IF ~Sound(fs, r.cmd) THEN "record is not of a command in question"
      ELSE IF r.hung THEN "did not end"
      ELSE IF \E p \in DOMAIN fs : p \notin DOMAIN got THEN "a file is gone"
      ELSE IF \E p \in DOMAIN want : p \notin DOMAIN got THEN "no result where one belongs"
      ELSE IF \E p \in (DOMAIN got) \ (DOMAIN want) : p \notin spare THEN "a file where none belongs"
      ELSE IF \E p \in DOMAIN want : got[p] # want[p] /\ want[p][1] = "done" THEN "not the result of its file"
      ELSE IF \E p \in DOMAIN want : got[p] # want[p] THEN "a file changed that had to stay"
      ELSE IF Range1(r.printed) # Printed(fs, r.cmd) \/ Len(r.printed) # Cardinality(Printed(fs, r.cmd)) THEN "printed something else"
      ELSE IF Reported(fs, r.cmd) /\ ~r.reported THEN "a failure is not reported"
      ELSE ""
Check(k) ==
  LET why == Why(Recs[k])
  IN  IF why = "" THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> k, why |-> why]))
Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ done' = FALSE
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
