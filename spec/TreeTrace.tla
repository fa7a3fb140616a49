------------------------------ MODULE TreeTrace -----------------------------
(* Validation of recorded histories: record i has the starting tree, the      *)
(* edits, and after each edit what every public query of every node reported. *)
EXTENDS Tree, Json, IOUtils
VARIABLES i, l, s, ok

Rec == ndJsonDeserialize(IOEnv.TRACE)

StartOf(r) == [kids |-> [n \in 0..(Len(r.kids) - 1) |-> r.kids[n + 1]],
               kind |-> [n \in 0..(Len(r.kinds) - 1) |-> r.kinds[n + 1]]]

Init == /\ i \in 1..Len(Rec) /\ l = 0 /\ s = StartOf(Rec[i])
        /\ ok = (Rec[i].init = View(s))

Verdict(t, o, ob) ==
  IF ob.panic # "" THEN <<"panic", ob.panic>>
  ELSE IF ob.view # View(t) THEN
     <<"view", o,
       [x \in {y \in DOMAIN ob.view : y \in DOMAIN View(t) => ob.view[y] # View(t)[y]} |-> ob.view[x]]>>
  ELSE IF o.op = "reorder" /\ ~OrderOK(t, ob.ids) THEN <<"order", ob.ids>>
  ELSE <<"ok">>

Next == /\ ok /\ l < Len(Rec[i].obs)
        /\ LET o == Rec[i].ops[l + 1]
               t == Apply(s, o)
               v == Verdict(t, o, Rec[i].obs[l + 1])
           IN /\ s' = t /\ l' = l + 1 /\ UNCHANGED i
              /\ ok' = (v[1] = "ok")
              /\ (v[1] # "ok" => PrintT("@@" \o ToJson([rec |-> i, step |-> l + 1, why |-> v[1], op |-> o.op, detail |-> ToString(v)])))
Spec == Init /\ [][Next]_<<i, l, s, ok>>
InitOK == (l = 0 /\ ~ok) => PrintT("@@" \o ToJson([rec |-> i, step |-> 0, why |-> "init", op |-> "init", detail |-> ""]))
=============================================================================
