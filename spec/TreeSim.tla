------------------------------- MODULE TreeSim ------------------------------
(* Seeded simulation of long edit histories on a larger pool of nodes.        *)
EXTENDS Tree, Json, IOUtils
CONSTANTS InitElems, InitTexts, Steps
VARIABLES s, hist

Init ==
  /\ s = [kids |-> [n \in 0..(InitElems + InitTexts - 1) |-> <<>>],
          kind |-> [n \in 0..(InitElems + InitTexts - 1) |-> IF n < InitElems THEN "elem" ELSE "text"]]
  /\ hist = <<>>

Grow == {"append", "append_child", "prepend", "insert", "insert_before", "before", "after"}
\* weight growing edits so that trees become deep enough to be interesting
Pick == LET want == EditsOf(s, RandomElement(IF RandomElement(1..2) = 1 THEN Grow ELSE EditNames))
        IN IF want # {} THEN RandomElement(want) ELSE RandomElement(EditsOf(s, "append"))

Next == /\ Len(hist) < Steps
        /\ \E o \in {Pick} :
             /\ s' = Apply(s, o)
             /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
Inv == WellFormed(s)
Done == Len(hist) = Steps =>
   PrintT("@@" \o ToJson([kinds |-> [i \in 1..(InitElems + InitTexts) |-> IF i <= InitElems THEN "elem" ELSE "text"],
                  kids  |-> [i \in 1..(InitElems + InitTexts) |-> <<>>],
                  ops   |-> hist]))
=============================================================================
