------------------------------ MODULE GenFiles ------------------------------
(* Directory trees and commands to run on them. *)
EXTENDS Files, Json, Randomization

CONSTANTS Wide

VARIABLES n

D == <<"dir">>
F(kind, c) == <<kind, c>>
Rich == ( <<"a.svg">> :> F("svg", "1") @@ <<"b.svg">> :> F("svg", "2") @@ <<"n.txt">> :> F("other", "3") @@ <<"d">> :> D @@ <<"d", "a.svg">> :> F("svg", "4")
  @@ <<"d", "c.svg">> :> F("bad", "5") @@ <<"d", ".h.svg">> :> F("svg", "6") @@ <<"d", "x">> :> D @@ <<"d", "x", "a.svg">> :> F("svg", "7")
  @@ <<"d", "x", "e.svg">> :> F("svg", "8") @@ <<"d", ".g">> :> D @@ <<"d", ".g", "b.svg">> :> F("svg", "9") @@ <<"d", "x", ".ignore">> :> <<"rules", <<"e.svg">>>>
  @@ <<"k">> :> D @@ <<"k", "b.svg">> :> F("svg", "10") @@ <<"k", "e.svg">> :> F("bin", "11") @@ <<"k", "n.txt">> :> F("other", "12") @@ <<"o">> :> D @@ <<"o", "c.svg">> :> F("svg", "13")
  @@ <<".git">> :> D @@ <<".gitignore">> :> <<"rules", <<"x">>>> @@ <<"k", "y">> :> D @@ <<"k", "y", "z">> :> D @@ <<"k", "y", "z", "a.svg">> :> F("svg", "14") )

Inputs == {<<<<"a.svg">>>>, <<<<"d">>>>, <<<<"a.svg">>, <<"b.svg">>>>, <<<<"d">>, <<"b.svg">>>>, <<<<"d">>, <<"k">>>>, <<<<"k">>>>, <<<<"d", ".h.svg">>>>, <<<<"d", "x">>>>,
           <<<<"k", "e.svg">>, <<"a.svg">>>>, <<<<"q.svg">>>>, <<<<"a.svg">>, <<"q.svg">>>>, <<<<"n.txt">>>>, <<<<"d", "c.svg">>, <<"b.svg">>>>, <<<<"k", "y">>, <<"d", "x", "e.svg">>>>}
Tos == {<<"o">>, <<"new">>, <<"new", "r.svg">>, <<"o", "c.svg">>, <<"n.txt", "r.svg">>}
Cmds == [inputs : Inputs, recursive : BOOLEAN, hidden : BOOLEAN, noIgnore : BOOLEAN, out : {"stdout", "inplace"}, to : {<<"o">>}]
   \cup [inputs : Inputs, recursive : BOOLEAN, hidden : BOOLEAN, noIgnore : BOOLEAN, out : {"to"}, to : Tos]

Paths(fs) == SetToSeq(DOMAIN fs)
Emit(fs, cmd, op, threads) ==
  PrintT("@@" \o ToJson([tree |-> [k \in 1..Len(Paths(fs)) |-> <<Paths(fs)[k], fs[Paths(fs)[k]]>>], cmd |-> cmd, op |-> op, threads |-> threads]))

Ops == {"optimise", "format", "action"}
(* Trees at random: a choice of places, and what is at them. *)
Names == {"a.svg", "b.svg", "c.svg", "e.svg", ".h.svg", "n.txt"}
Dirs == {<<>>, <<"d">>, <<"d", "x">>, <<"d", ".g">>, <<"k">>, <<"k", "y">>, <<"o">>, <<"o", "x">>}
Below1(dirs0) == {d \in dirs0 : Len(d) = 1 \/ <<d[1]>> \in dirs0}
Files1(dirs) == UNION {{Append(d, f) : f \in RandomSubset(RandomElement(0..4), Names)} : d \in dirs \cup {<<>>}}
Rules1(dirs) == {Append(d, RandomElement({".ignore", ".gitignore"})) : d \in RandomSubset(RandomElement({0, 1, 2}), dirs \cup {<<>>})}
At(dirs, files, rules, p) ==
  IF p \in dirs \cup {<<".git">>} THEN D
  ELSE IF p \in rules THEN <<"rules", SetToSeq(RandomSubset(RandomElement(1..2), Names \cup {"x", "y", "d"}))>>
  ELSE <<IF LastOf(p) = "n.txt" THEN "other" ELSE RandomElement({"svg1", "svg2", "svg3", "svg4", "bad", "bin"}), ToString(CHOOSE k \in 1..Cardinality(files) : SetToSeq(files)[k] = p)>>
Settle(e) == IF e[1] \in {"svg1", "svg2", "svg3", "svg4"} THEN <<"svg", e[2]>> ELSE e
RandomCmd(ins) ==
  [inputs |-> SetToSeq(ins), recursive |-> RandomElement({1, 2, 3}) > 1, hidden |-> RandomElement(BOOLEAN), noIgnore |-> RandomElement(BOOLEAN),
   out |-> RandomElement({"stdout", "inplace", "to"}), to |-> RandomElement(Tos \cup {<<"d", "x">>, <<"k">>})]

Init == n = 0
Next ==
  IF Wide
  THEN n = 0 /\ \E cmd \in {c \in Cmds : Sound(Rich, c)} : \E op \in Ops : \E t \in {1, 4} : Emit(Rich, cmd, op, t) /\ n' = 1
  ELSE \E dirs0 \in {RandomSubset(RandomElement(2..7), Dirs \ {<<>>})} : \E dirs \in {Below1(dirs0)} : \E files \in {Files1(dirs)} : \E rules \in {Rules1(dirs)} :
       \E git \in {RandomElement({{<<".git">>}, {}})} : \E raw \in {[p \in dirs \cup files \cup rules \cup git |-> At(dirs, files, rules, p)]} :
       \E fs \in {[p \in DOMAIN raw |-> Settle(raw[p])]} : \E ins \in {RandomSubset(RandomElement(1..3), DOMAIN fs \cup {<<"q.svg">>})} : \E cmd \in {RandomCmd(ins)} :
          /\ n' = n + 1
          /\ IF Sound(fs, cmd) THEN Emit(fs, cmd, RandomElement(Ops), RandomElement({1, 2, 8})) ELSE TRUE
Spec == Init /\ [][Next]_n
=============================================================================
