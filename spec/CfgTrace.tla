------------------------------ MODULE CfgTrace ------------------------------
(* Decides whether what was observed of a configuration is what the configuration means. *)
EXTENDS Config, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

Index(name) == CHOOSE n \in 1..N : Name(n) = name
SetOf(r) ==
  IF r.kind = "svgo"
  THEN ResolveList([k \in 1..Len(r.plugins) |-> IF Len(r.plugins[k]) = 1 THEN <<r.plugins[k][1]>> ELSE <<r.plugins[k][1], r.plugins[k][2], r.plugins[k][3]>>])
  ELSE Resolve([extends |-> r.extends, jobs |-> [k \in 1..Len(r.jobs) |-> <<r.jobs[k][1], r.jobs[k][3]>>], omit |-> {r.omits[k] : k \in 1..Len(r.omits)}])

(* written: sequence of <<job, its options as <<name, value>>, options it has by default>>. *)
Lookup(ops, k) == LET at == {j \in 1..Len(ops) : ops[j][1] = k} IN IF at = {} THEN "-" ELSE ops[CHOOSE j \in at : TRUE][2]
Means(r, n) == Len(SelectSeq(r.written, LAMBDA w : w[1] = Name(n)))
Written(r, n) == SelectSeq(r.written, LAMBDA w : w[1] = Name(n))[1]
OptionsMatch(w, given) ==
  /\ \A j \in 1..Len(given) : Lookup(w[2], given[j][1]) = given[j][2]
  /\ \A j \in 1..Len(w[2]) : (\A k \in 1..Len(given) : given[k][1] # w[2][j][1]) => w[2][j][2] = Lookup(w[3], w[2][j][1])
  /\ \A j \in 1..Len(w[3]) : (\A k \in 1..Len(given) : given[k][1] # w[3][j][1]) => w[3][j][2] = Lookup(w[2], w[3][j][1])

Why(r) ==
  LET set == SetOf(r) IN
  IF r.bad THEN (IF r.error = "" THEN "accepted a configuration that says nothing definite" ELSE "")
  ELSE IF r.error # "" THEN "refused: " \o r.error
  ELSE IF r.steps # (LET q == Runs(set) IN [k \in 1..Len(q) |-> <<Name(q[k]), set[q[k]][2]>>]) THEN "record is not of this configuration"
  ELSE IF \E n \in 1..N : set[n][1] = Off /\ Means(r, n) > 0
       THEN "selects a job it should not: " \o Name(CHOOSE n \in 1..N : set[n][1] = Off /\ Means(r, n) > 0)
  ELSE IF \E n \in 1..N : set[n][1] = "on" /\ ~Idle(n, set[n][2]) /\ Means(r, n) = 0
       THEN "does not select " \o Name(CHOOSE n \in 1..N : set[n][1] = "on" /\ ~Idle(n, set[n][2]) /\ Means(r, n) = 0)
  ELSE IF \E n \in 1..N : set[n][1] = "on" /\ Means(r, n) > 0 /\ ~OptionsMatch(Written(r, n), set[n][2])
       THEN "has other options for " \o Name(CHOOSE n \in 1..N : set[n][1] = "on" /\ Means(r, n) > 0 /\ ~OptionsMatch(Written(r, n), set[n][2]))
  ELSE IF ~r.same THEN "reads back as a different configuration"
  ELSE IF \E d \in 1..Len(r.texts) : r.texts[d] # r.expects[d] THEN "does something else than its jobs in order"
  ELSE IF \E d \in 1..Len(r.texts) : r.texts[d] # r.agains[d] THEN "does something else once read back"
  ELSE IF (\A k \in 1..Len(r.steps) : Inert(r.steps[k][1], r.steps[k][2])) /\ \E d \in 1..Len(r.texts) : r.texts[d] # r.plain[d]
       THEN "has an effect although nothing is asked for"
  ELSE IF \E d \in 1..Len(r.cli) : r.cli[d] # r.expects[d] THEN "does something else from the command line"
  ELSE ""

Check(k) ==
  LET why == Why(Recs[k])
  IN  IF why = "" THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> k, why |-> why]))

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ done' = FALSE
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
