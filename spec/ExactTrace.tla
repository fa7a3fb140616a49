----------------------------- MODULE ExactTrace -----------------------------
(* Validates recorded runs of targeted jobs against Exact.                      *)
EXTENDS Exact, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

RECURSIVE Diff(_, _)
Diff(x, y) ==
  IF x.k # y.k \/ x.n # y.n THEN <<"node", ToString(<<x.k, x.n>>), ToString(<<y.k, y.n>>)>>
  ELSE IF x.t # y.t THEN <<"text", x.t, y.t>>
  ELSE IF x.at # y.at THEN <<"attributes of " \o x.n, ToString(x.at), ToString(y.at)>>
  ELSE IF Len(x.kids) # Len(y.kids) THEN <<"children of " \o x.n, ToString([k \in DOMAIN x.kids |-> x.kids[k].n]), ToString([k \in DOMAIN y.kids |-> y.kids[k].n])>>
  ELSE LET ks == {k \in DOMAIN x.kids : x.kids[k] # y.kids[k]} IN
       IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : \A m \in ks : k <= m IN Diff(x.kids[k], y.kids[k])

Check(r) == \A a \in DOMAIN r.after :
  LET want == Expected(r.before, r.after[a].job)
      got == Actual(r.after[a].doc, r.after[a].job)
  IN IF want = got THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> i, after |-> a, why |-> Diff(want, got)]))

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
