------------------------------ MODULE GenVisit ------------------------------
(* Documents node by node, with a visitor's script of one or two effects.        *)
EXTENDS Visit, TLC, Json
CONSTANTS MaxNodes, MaxEffects
VARIABLES t, script, phase

Kinds == {"g", "foreignObject", "style", "text", "comment", "pi"}
Name(k, i) == (CASE k \in {"svg", "g", "foreignObject", "style"} -> "e" [] k = "text" -> "t" [] k = "comment" -> "c" [] k = "pi" -> "p" [] k = "css" -> ".s") \o (<<"1", "2", "3", "4", "5", "6", "7", "8", "9">>)[i]
Root == <<[k |-> "svg", n |-> "e1", p |-> 0]>>
NoScript == [prepare |-> "", start |-> [x \in {} |-> <<>>], end |-> [x \in {} |-> <<>>]]
(* where a next node can go: below the last node or one of its ancestors         *)
RECURSIVE Open(_)
Open(i) == IF i = 0 THEN {0} ELSE {i} \cup Open(t[i].p)
Places(k) == {p \in Open(Len(t)) : IF p = 0 THEN k \in {"comment", "pi"} ELSE t[p].k \in {"svg", "g", "foreignObject"}}
Adjacent(k, p) == k = "text" /\ \E i \in DOMAIN t : t[i].k = "text" /\ t[i].p = p /\ ~\E j \in (i + 1)..Len(t) : t[j].p = p
Grow == /\ phase = "tree" /\ Len(t) < MaxNodes
        /\ \E k \in Kinds : \E p \in Places(k) :
             /\ ~Adjacent(k, p)
             /\ LET one == Append(t, [k |-> k, n |-> Name(k, Len(t) + 1), p |-> p]) IN
                IF k # "style" THEN t' = one ELSE Len(t) + 1 < MaxNodes /\ t' = Append(one, [k |-> "css", n |-> Name("css", Len(t) + 2), p |-> Len(t) + 1])
        /\ UNCHANGED <<script, phase>>
Starts == {<<"skip">>, <<"clear">>, <<"behead">>, <<"add">>, <<"before">>, <<"fail">>, <<"skip", "remove">>, <<"clear", "add", "add">>, <<"add", "fail">>, <<"behead", "before">>, <<"clear", "remove">>}
Ends == {<<"remove">>, <<"fail">>, <<"add">>, <<"unwrap">>}
Elements == {t[i].n : i \in {j \in DOMAIN t : IsElem(t[j]) /\ t[j].k # "style"}}
Count == Cardinality(DOMAIN script.start) + Cardinality(DOMAIN script.end)
Set(f, n, e) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN e ELSE f[x]]
(* the root stays, and a mute element of the same position is not both removed   *)
(* and unwrapped                                                                *)
Instruct ==
  /\ phase \in {"tree", "script"} /\ phase' = "script" /\ UNCHANGED t /\ Count < MaxEffects
  /\ \E n \in Elements :
       \/ n \notin DOMAIN script.start /\ \E e \in Starts : (n # "e1" \/ \A k \in DOMAIN e : e[k] # "remove") /\ script' = [script EXCEPT !.start = Set(script.start, n, e)]
       \/ n \notin DOMAIN script.end /\ n # "e1" /\ \E e \in Ends : (n \in DOMAIN script.start => \A k \in DOMAIN script.start[n] : script.start[n][k] # "remove") /\ script' = [script EXCEPT !.end = Set(script.end, n, e)]
Prepare == phase = "tree" /\ phase' = "done" /\ UNCHANGED t /\ Len(t) <= 2 /\ \E p \in {"skip", "fail"} : script' = [script EXCEPT !.prepare = p]
Emit == PrintT("@@" \o ToJson([t |-> t', script |-> script']))
Init == t = Root /\ script = NoScript /\ phase = "tree"
Next == (Grow \/ Instruct \/ Prepare) /\ Emit
Spec == Init /\ [][Next]_<<t, script, phase>>

(* ---- what holds of every walk                                                *)
W == Walk(t, script)
Plain == phase = "tree"
At(kind, n) == {k \in DOMAIN W.ev : W.ev[k][1] = kind /\ W.ev[k][2] = n}
Once == \A a, b \in DOMAIN W.ev : W.ev[a] = W.ev[b] => a = b
EverythingSeen == Plain => \A i \in DOMAIN t : IF IsElem(t[i]) THEN At("element", t[i].n) # {} /\ At("exit_element", t[i].n) # {} ELSE At(Hook(t[i].k), t[i].n) # {}
Nested == \A n \in {t[i].n : i \in DOMAIN t} : \A k \in At("exit_element", n) : \E j \in At("element", n) : j < k
Ordered == Plain => \A i, j \in DOMAIN t : i < j => \A a \in {k \in DOMAIN W.ev : W.ev[k][2] = t[i].n /\ W.ev[k][1] # "exit_element"} : \A b \in {k \in DOMAIN W.ev : W.ev[k][2] = t[j].n /\ W.ev[k][1] # "exit_element"} : a < b
Closed == W.ok /\ script.prepare = "" => W.ev[Len(W.ev)][1] = "exit_document"
=============================================================================
