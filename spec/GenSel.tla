------------------------------- MODULE GenSel -------------------------------
(* Selectors and documents to ask them about.  Selectors are texts built from   *)
(* compounds and combinators; documents are trees given by the parent of every  *)
(* element in document order, decorated with names, ids, classes, attributes    *)
(* and content.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES sel, doc, k

Names == <<"g", "path", "linearGradient", "text">>
Compounds == <<"*", "g", "path", "linearGradient", ".a", ".b", "#x", "#y", "[data-n]", "[data-n=v]", "[data-n^=v]", "[data-n$=w]", "[data-n*=q]", "[data-n~=w]", "[data-n|=v]",
  "[id=x]", "[class]", "[class~=b]", "[viewBox]", "[href]", "[fill=red]", ":first-child", ":last-child", ":only-child", ":first-of-type", ":last-of-type", ":only-of-type", ":empty", ":root",
  ":nth-child(2)", ":nth-child(odd)", ":nth-child(2n)", ":nth-child(-n+2)", ":nth-last-child(2)", ":nth-of-type(2)", ":nth-last-of-type(2n+1)",
  ":not(.a)", ":not(g)", ":not(:first-child)", ":not(.a,.b)", ":not([data-n])", "path.a", "g#x", ".a.b", "path:first-child", "g:empty", "*.b", ".a\\:b", "path[data-n].a", ".a:not(.b)">>
Combs == <<" ", ">", "+", "~">>

\* exhaustive: one compound, or two with a combinator
Fixed == {<<Compounds[i]>> : i \in DOMAIN Compounds}
    \cup {<<Compounds[i], Combs[c], Compounds[j]>> : i \in DOMAIN Compounds, j \in DOMAIN Compounds, c \in DOMAIN Combs}
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE s[1] \o Text(Tail(s))

InitAll == sel \in Fixed /\ doc = <<>> /\ k = 0
NextAll == k = 0 /\ k' = 1 /\ PrintT("@@" \o ToJson([sel |-> Text(sel)])) /\ UNCHANGED <<sel, doc>>
SpecAll == InitAll /\ [][NextAll]_<<sel, doc, k>>

(* --- simulation: a random document and longer selectors, lists --------------- *)
Pick(s) == s[RandomElement(1..Len(s))]
Ids == <<"", "", "", "x", "y", "X">>
Classes == <<"", "", "a", "b", "a b", "b a", "a:b", "A", "ab">>
Data == <<"", "", "v", "v-w", "v w", "qvq", "w", "Vw">>
Extra == <<"", "", "viewBox=0 0 1 1", "fill=red", "href=u", "xlink:href=u">>
Content == <<"", "", "", "t", "c", "p">>

\* a new element below a random element of the rightmost branch
Grow ==
  \E p \in {Pick(<<0, 1, 1, 2, 2, 3, 9, 9>>)}, n \in {Pick(Names)}, id \in {Pick(Ids)}, cl \in {Pick(Classes)}, da \in {Pick(Data)}, ex \in {Pick(Extra)}, co \in {Pick(Content)} :
     doc' = Append(doc, [up |-> p, n |-> n, id |-> id, cls |-> cl, data |-> da, ex |-> ex, co |-> co])
Piece == \E c \in {Pick(Compounds)}, b \in {Pick(Combs \o <<",">>)} :
           sel' = IF sel = <<>> THEN <<c>> ELSE IF Len(sel) >= 7 THEN <<c>> ELSE sel \o <<b, c>>
InitSim == sel = <<>> /\ doc = <<>> /\ k = 0
NextSim ==
  /\ k' = k + 1
  /\ IF k < 7 THEN Grow /\ UNCHANGED sel
     ELSE /\ Piece /\ UNCHANGED doc
          /\ PrintT("@@" \o ToJson([doc |-> doc, sel |-> Text(sel')]))
SpecSim == InitSim /\ [][NextSim]_<<sel, doc, k>>
=============================================================================
