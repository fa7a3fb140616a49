----------------------------- MODULE StyleTrace -----------------------------
(* Validates the computed styles the code reports, for every element and        *)
(* property asked about, against the cascade under every combination of         *)
(* conditions.                                                                  *)
EXTENDS Css, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

RECURSIVE StyleOf(_, _, _)
StyleOf(d, env, e) == Computed(Cascaded(d, env, e), IF ParEl(d, e) = 0 THEN <<>> ELSE StyleOf(d, env, ParEl(d, e)))

\* something on the way decides p: a declaration on e, or for inherited properties on an ancestor
Judge(r) ==
  LET d == r.doc
      envs == SUBSET Conds(d)
      st == [e \in {r.els[x] : x \in DOMAIN r.els} |-> [env \in envs |-> StyleOf(d, env, e)]]
      state == \E c \in Conds(d) : SubSeq(c, 1, 1) = ":"
      spelled == \/ \E q \in DOMAIN d.rules : \E j \in DOMAIN d.rules[q].decls : d.rules[q].decls[j].v = S("inherit")
                 \/ \E e \in DOMAIN d.nodes : d.nodes[e].k = "e" /\ \E j \in DOMAIN d.nodes[e].inl : d.nodes[e].inl[j].v = S("inherit")
      wrong(x, k) ==
        LET e == r.els[x]
            p == r.props[k]
            ans == r.got[x][k]
            vals == {Get(st[e][env], p) : env \in envs}
        IN IF ans.panic # "" THEN ans.panic
           \* a value that cannot be held as one may be reported as set, without saying to what
           ELSE IF ans.opaque THEN (IF spelled THEN "" ELSE "no value")
           ELSE IF ~ans.set THEN (IF vals = {Initial[p]} THEN "" ELSE "not set, expected " \o ToString(vals))
           ELSE IF ans.v \notin vals THEN ToString(ans.v) \o ", expected " \o ToString(vals)
           ELSE IF Cardinality(vals) > 1 /\ ans.mode = "definite" THEN "definite " \o ToString(ans.v) \o ", but possible are " \o ToString(vals)
           ELSE IF ans.mode = "uncertain" /\ Conds(d) = {} THEN "uncertain without conditions"
           ELSE ""
  IN \A x \in DOMAIN r.els :
       \* a document whose conditions cannot be judged may be refused as a whole
       IF r.refused[x] # "" THEN (IF state THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> i, el |-> x, p |-> "", why |-> r.refused[x]])))
       ELSE \A k \in DOMAIN r.props : LET w == wrong(x, k) IN IF w = "" THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> i, el |-> x, p |-> r.props[k], why |-> w]))

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Judge(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
