------------------------------- MODULE TreeMC -------------------------------
(* Exhaustive exploration: every tree over MaxNode+1 nodes, every edit from   *)
(* it.  With EMIT set, each explored transition is written out for replay.    *)
EXTENDS Tree, Json, IOUtils
CONSTANTS InitElems, InitTexts
VARIABLES s, depth

Init ==
  /\ s = [kids |-> [n \in 0..(InitElems + InitTexts - 1) |-> <<>>],
          kind |-> [n \in 0..(InitElems + InitTexts - 1) |-> IF n < InitElems THEN "elem" ELSE "text"]]
  /\ depth = 0

Emit(o) == IF "EMIT" \in DOMAIN IOEnv
           THEN PrintT("@@" \o ToJson([kinds |-> [i \in 1..Cardinality(Alloc(s)) |-> s.kind[i-1]],
                               kids  |-> [i \in 1..Cardinality(Alloc(s)) |-> s.kids[i-1]],
                               ops   |-> <<o>>]))
           ELSE TRUE

Next == \E o \in Edits(s) : /\ Emit(o)
                            /\ s' = Apply(s, o)
                            /\ depth' = 0
Spec == Init /\ [][Next]_<<s, depth>>

Inv == WellFormed(s)
\* moving or removing one node never changes the relative order of the others
FrameInv == \A n \in Alloc(s) \ {0} : \A p \in Alloc(s) :
              Detach(s, n).kids[p] = Without(s.kids[p], n)
=============================================================================
