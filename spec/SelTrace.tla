------------------------------ MODULE SelTrace ------------------------------
(* Validates answers of the selector engine.  A record: one document, several   *)
(* selector lists with what the code picked.  Elements are numbered in          *)
(* document order; els maps those numbers to nodes.                             *)
EXTENDS Css, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done

SetOf(s) == {s[j] : j \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

RECURSIVE Below(_, _, _)
Below(d, e, f) == LET p == d.nodes[f].par IN p # 0 /\ (p = e \/ Below(d, e, p))

\* the closest strict ancestor with a name
RECURSIVE Closest(_, _, _)
Closest(d, e, n) == LET p == ParEl(d, e) IN IF p = 0 THEN 0 ELSE IF d.nodes[p].n = n THEN p ELSE Closest(d, p, n)

Judge(r) ==
  LET d == r.doc
      els == r.els
      E == DOMAIN els
      Num(node) == CHOOSE x \in E : els[x] = node
      wrong(q) ==
        LET want == {x \in E : \E j \in DOMAIN q.list : Matches(d, {}, els[x], q.list[j])}
            whole == q.ans.whole
        IN IF q.panic # "" THEN q.panic
           ELSE IF q.bad THEN "rejected"
           ELSE IF SetOf(q.ans.matching) # want \/ ~NoDup(q.ans.matching) THEN "matches: " \o ToString(q.ans.matching) \o " expected " \o ToString(want)
           ELSE IF SetOf(whole) # want \/ ~NoDup(whole) THEN "selects: " \o ToString(whole) \o " expected " \o ToString(want)
           ELSE IF q.ans.again # whole THEN "a prepared selector selects: " \o ToString(q.ans.again)
           ELSE LET bad == {x \in E : LET got == q.ans.below[x] IN SetOf(got) # {y \in want : Below(d, els[x], els[y])} \/ ~NoDup(got)}
                IN IF bad = {} THEN "" ELSE LET x == CHOOSE x \in bad : TRUE IN "below " \o ToString(x) \o ": " \o ToString(q.ans.below[x])
      near(n) == \A x \in E : LET c == Closest(d, els[x], r.names[n]) IN r.closest[n][x] = IF c = 0 THEN 0 ELSE Num(c)
  IN /\ \A q \in DOMAIN r.asked :
          LET w == wrong(r.asked[q]) IN IF w = "" THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> i, q |-> q, why |-> w]))
     /\ \A n \in DOMAIN r.names : IF near(n) THEN TRUE ELSE PrintT("@@" \o ToJson([rec |-> i, q |-> 0, why |-> "closest " \o r.names[n] \o ": " \o ToString(r.closest[n])]))

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Judge(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
