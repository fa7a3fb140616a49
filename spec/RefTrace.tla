------------------------------ MODULE RefTrace ------------------------------
(* Validates recorded runs of jobs that touch ids, definitions or links: every  *)
(* reference of every surviving element still leads to the same element (known  *)
(* by its mark m), or still leads nowhere.                                      *)
EXTENDS Css, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

Elems(d) == {e \in DOMAIN d.nodes : d.nodes[e].k = "e"}
\* the first element in document order bears the name
Target(d, name) == LET c == {e \in Elems(d) : d.nodes[e].id = name} IN IF c = {} THEN 0 ELSE CHOOSE e \in c : \A f \in c : e <= f
Mark(d, e) == IF e = 0 THEN "nowhere" ELSE d.nodes[e].m
At(d, m) == LET c == {e \in Elems(d) : d.nodes[e].m = m} IN IF c = {} THEN 0 ELSE CHOOSE e \in c : \A f \in c : e <= f
Marks(d) == {d.nodes[e].m : e \in Elems(d)} \ {""}

Leads(d, names) == [j \in DOMAIN names |-> Mark(d, Target(d, names[j]))]
Slots(d, e) == d.nodes[e].slots

\* gradients with at most one stop, counting the stops of the gradients they refer to
RECURSIVE Stops(_, _, _)
Stops(d, e, fuel) ==
  LET own == Len(SelectSeq(d.nodes[e].kids, LAMBDA k : d.nodes[k].k = "e" /\ d.nodes[k].n = "stop"))
  IN IF own > 0 \/ fuel = 0 THEN own
     ELSE IF d.nodes[e].href = "" \/ Target(d, d.nodes[e].href) = 0 THEN 0
     ELSE Stops(d, Target(d, d.nodes[e].href), fuel - 1)
Flat(d, m) == m # "nowhere" /\ LET e == At(d, m) IN
              e # 0 /\ d.nodes[e].n \in {"linearGradient", "radialGradient"} /\ Stops(d, e, 3) <= 1

SameId(d, x, y) == d.nodes[x].id # "" /\ d.nodes[x].id = d.nodes[y].id
RuleMarks(d, r) == {d.nodes[e].m : e \in {f \in Elems(d) : Matches(d, {}, f, r.sel)}}

\* what a single job may not do
SlotWrong(b, a, m, s, job) ==
  LET x == Slots(b, At(b, m))[s]
      y == Slots(a, At(a, m))
      was == Leads(b, x)
  IN IF s \in DOMAIN y THEN Leads(a, y[s]) # was
     ELSE ~(job.flat /\ \A j \in DOMAIN was : was[j] = "nowhere" \/ Flat(b, was[j]))
Wrong(b, a, job) ==
  UNION {{<<m, s>> : s \in {t \in DOMAIN Slots(b, At(b, m)) : SlotWrong(b, a, m, t, job)}} : m \in Marks(a) \cap Marks(b)}
Lost(b, a, job) ==
  \* elements something still refers to may not go away
  {m \in Marks(b) \ Marks(a) : \E e \in Elems(a) : a.nodes[e].m \in Marks(b) /\ \E s \in DOMAIN Slots(b, At(b, a.nodes[e].m)) :
       LET was == Leads(b, Slots(b, At(b, a.nodes[e].m))[s]) IN (\E j \in DOMAIN was : was[j] = m) /\ ~(job.flat /\ Flat(b, m))}
\* elements a job adds bear no mark: for them the number of bearers counts
Bearers(d, n) == Cardinality({e \in Elems(d) : d.nodes[e].id = n})
Doubled(b, a) ==
  {<<x, y>> \in Elems(a) \X Elems(a) : x < y /\ SameId(a, x, y)
      /\ IF "" \in {a.nodes[x].m, a.nodes[y].m} THEN Bearers(a, a.nodes[x].id) > Bearers(b, a.nodes[x].id)
         ELSE ~(At(b, a.nodes[x].m) # 0 /\ At(b, a.nodes[y].m) # 0 /\ SameId(b, At(b, a.nodes[x].m), At(b, a.nodes[y].m)))}
Renamed(b, a, job) ==
  {m \in Marks(a) \cap Marks(b) : LET n == b.nodes[At(b, m)].id IN
      /\ \E k \in DOMAIN job.keep : job.keep[k] = n
      /\ Target(b, n) = At(b, m)
      /\ a.nodes[At(a, m)].id # n}
\* what a rule leads to; gradients of one colour stand for that colour
Painted(d, refs, job, b) == SelectSeq(Leads(d, refs), LAMBDA m : ~(job.flat /\ (m = "nowhere" \/ Flat(b, m))))
Unselected(b, a, job) ==
  IF Len(b.rules) # Len(a.rules) THEN {0}
  ELSE {r \in {s \in DOMAIN b.rules : job.flat => \A k \in DOMAIN b.rules[s].refs : Bearers(b, b.rules[s].refs[k]) <= 1} :
                               RuleMarks(b, b.rules[r]) \cap Marks(a) # RuleMarks(a, a.rules[r]) \cap Marks(b)
                            \/ Painted(b, b.rules[r].refs, job, b) # Painted(a, a.rules[r].refs, job, b)}
Named(d) == UNION {{d.rules[r].refs[j] : j \in DOMAIN d.rules[r].refs} : r \in DOMAIN d.rules} \cup UNION {UNION {{Slots(d, e)[s][j] : j \in DOMAIN Slots(d, e)[s]} : s \in DOMAIN Slots(d, e)} : e \in Elems(d)}
Dangling(d) == {n \in Named(d) : Target(d, n) = 0}

Say(j, why, what) == PrintT("@@" \o ToJson([rec |-> i, after |-> j, why |-> why, what |-> ToString(what)]))
CheckOne(r, j) ==
  LET b == r.before
      a == r.after[j].doc
      job == r.after[j].job
  IN /\ IF Doubled(b, a) = {} THEN TRUE ELSE Say(j, "two elements share an id", Doubled(b, a))
     /\ IF job.preset
        THEN IF Dangling(a) \subseteq Dangling(b) THEN TRUE ELSE Say(j, "a reference leads nowhere now", Dangling(a) \ Dangling(b))
        ELSE /\ IF Wrong(b, a, job) = {} THEN TRUE ELSE Say(j, "a reference leads elsewhere", Wrong(b, a, job))
             /\ IF Lost(b, a, job) = {} THEN TRUE ELSE Say(j, "a referenced element is gone", Lost(b, a, job))
             /\ IF Renamed(b, a, job) = {} THEN TRUE ELSE Say(j, "a preserved id changed", Renamed(b, a, job))
             /\ IF job.rules => Unselected(b, a, job) = {} THEN TRUE ELSE Say(j, "a style rule applies to other elements", Unselected(b, a, job))
Check(r) == \A j \in DOMAIN r.after : CheckOne(r, j)

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
