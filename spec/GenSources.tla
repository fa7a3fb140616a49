----------------------------- MODULE GenSources -----------------------------
(* Arrangements of configuration files and arguments, and what each must lead to. *)
EXTENDS Sources, Integers, Json
CONSTANTS All           \* every arrangement; otherwise those where at most three sources differ from nothing
VARIABLES done

Few == {c \in Cases : \/ c.named = NoName /\ (c.preset = "" \/ c.base \in {0, 3})
                      \/ c.named # NoName /\ c.base = 0 /\ (c.preset = "" \/ c.local \in {0, 1, 9})
                      \/ c.named \in {0, 1, 9} /\ c.local = 0 /\ c.preset \in {"", "safe"}}
Printed == {c \in Cases : c.named = NoName /\ c.preset = "" /\ Verdict(c) = "run" /\ (c.local = 0 \/ c.base \in {0, 2, 9})}
Text(f) == IF f > 0 THEN Content[f][1] ELSE ""
Emit(c, print) == PrintT("@@" \o ToJson([case |-> c, print |-> print, texts |-> <<Text(c.named), Text(c.local), Text(c.base)>>]))
Init == done = FALSE
Next == /\ ~done
        /\ \/ \E c \in (IF All THEN Cases ELSE Few) : Emit(c, FALSE) /\ done' = TRUE
           \/ \E c \in Printed : Emit(c, TRUE) /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
