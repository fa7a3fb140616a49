---------------------------- MODULE RenderTrace ----------------------------
(* Validates recorded optimiser runs: every output paints what its input        *)
(* painted, under every condition the two documents can tell apart.             *)
EXTENDS Render, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, done

Envs(b, a) == LET cs == Conds(b) \cup Conds(a)
              IN IF Cardinality(cs) <= 3 THEN SUBSET cs ELSE {{}, cs} \cup {{x} : x \in cs}

\* the first difference between two pictures
RECURSIVE DiffAt(_, _)
DiffAt(x, y) ==
  IF Len(x) # Len(y) THEN [why |-> "items", a |-> ToString(Len(x)), b |-> ToString(Len(y))]
  ELSE LET ks == {k \in DOMAIN x : x[k] # y[k]} IN
       IF ks = {} THEN [why |-> "", a |-> "", b |-> ""]
       ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN
            IF x[k].t # y[k].t THEN [why |-> "type", a |-> x[k].t, b |-> y[k].t]
            ELSE IF x[k].t = "scope" /\ x[k].kind = y[k].kind /\ x[k].arg = y[k].arg /\ x[k].m = y[k].m /\ x[k].rest = y[k].rest
            THEN DiffAt(x[k].items, y[k].items)
            ELSE LET fs == {f \in DOMAIN x[k] : x[k][f] # y[k][f]}
                     f == CHOOSE f \in fs : TRUE
                 IN [why |-> f, a |-> ToString(x[k][f]), b |-> ToString(y[k][f])]

Check(r) ==
  \A j \in DOMAIN r.after :
    LET b == r.before
        a == r.after[j].doc
        bad == {env \in Envs(b, a) : Render(b, env) # Render(a, env)}
    IN bad # {} =>
         LET env == CHOOSE env \in bad : TRUE
             rb == Render(b, env)
             ra == Render(a, env)
             df == IF rb.rest # ra.rest THEN [why |-> "root", a |-> ToString(rb.rest), b |-> ToString(ra.rest)] ELSE DiffAt(rb.items, ra.items)
         IN PrintT("@@" \o ToJson([rec |-> i, after |-> j, env |-> env, why |-> df.why, a |-> df.a, b |-> df.b]))

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
