----------------------------- MODULE GenScript ------------------------------
(* Documents made of parts that look unused, with and without something that    *)
(* might use them after all.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxParts
VARIABLES parts, kind

\* <<where it goes, text>>
Parts == [
  idle   |-> <<"body", "<path id='unused' d='M0 0h10v10z'/>">>,
  used   |-> <<"body", "<path id='long-name' d='M20 0h10v10z'/><use href='#long-name' x='40'/>">>,
  class  |-> <<"rule", ".ghost{fill:red}">>,
  hash   |-> <<"rule", "#spectre{stroke:red}">>,
  tag    |-> <<"rule", "ellipse{fill:#0f0}">>,
  stroke |-> <<"body", "<path d='M0 20h10v10z' stroke='none' stroke-width='3'/>">>,
  fill   |-> <<"body", "<path d='M20 20h10v10z' fill='none' fill-opacity='.5' stroke='red'/>">>,
  grad   |-> <<"body", "<linearGradient id='lg'><stop offset='0'/></linearGradient>">>,
  clip   |-> <<"body", "<defs><clipPath id='cl'><path d='M1 1h2v2z'/></clipPath></defs>">>,
  sym    |-> <<"body", "<symbol id='sy'><path d='M1 1h2v2z'/></symbol>">>
]
\* what may look into the document
Kinds == [
  none   |-> "",
  script |-> "<script>go()</script>",
  src    |-> "<defs><script href='a.js'/></defs>",
  click  |-> "<rect width='5' height='5' onclick='go()'/>",
  begin  |-> "<rect width='5' height='5'><set attributeName='x' to='3' onbegin='go()'/></rect>",
  load   |-> "@onload='go()'",
  link   |-> "<a href='javascript:go()'><rect width='5' height='5'/></a>",
  xlink  |-> "<a xlink:href='javascript:go()'><rect width='5' height='5'/></a>",
  plain  |-> "<a href='page.html'><rect width='5' height='5'/></a>"
]
Init == parts = {} /\ kind \in DOMAIN Kinds
Next == /\ Cardinality(parts) < MaxParts
        /\ \E p \in DOMAIN Parts \ parts :
             /\ parts' = parts \cup {p}
             /\ PrintT("@@" \o ToJson([kind |-> Kinds[kind], scripted |-> kind \notin {"none", "plain"}, names |-> parts', parts |-> [q \in parts' |-> Parts[q]]]))
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<parts, kind>>
=============================================================================
