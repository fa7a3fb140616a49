------------------------------- MODULE GenXml -------------------------------
(* Documents about writing: rows of items inside nested wrappers.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxItems
VARIABLES outer, inner, items, last

El(n, at, kids) == [n |-> n, at |-> at, kids |-> kids]
A(n, v) == [a |-> n, v |-> v]
E(n, at) == El(n, at, <<>>)
Leaf(n, s) == [n |-> n, at |-> <<A("t", s)>>, kids |-> <<>>]
T(s) == Leaf("#text", s)
CD(s) == Leaf("#cdata", s)
R(s) == Leaf("#refs", s)
C(s) == Leaf("#comment", s)
PI(t, s) == [n |-> "#pi", at |-> <<A("n", t), A("t", s)>>, kids |-> <<>>]
Span(s) == El("tspan", <<>>, <<T(s)>>)

Items == <<
  T("a"), T(" a"), T("a "), T("  a \t b\n c "), T(" "), T("\n  "), T("<a>&'\"b"), T("]]>"), CD("c<d>&e"), CD(" x "), R("p\n\tq"), R("r s"),
  C("note"), C(" two - words "), C("<x>&"), PI("target", "some data"), PI("bare", ""),
  Span("a"), Span(" a "), Span("a b"), E("tspan", <<>>), El("tspan", <<A("xml:space", "preserve")>>, <<T(" a  b ")>>), El("tspan", <<A("xml:space", "default")>>, <<T(" a  b ")>>),
  El("title", <<>>, <<T(" two  words ")>>), El("text", <<>>, <<T("one "), Span("two"), T(" "), Span("three"), T("\n")>>), El("text", <<A("xml:space", "preserve")>>, <<T(" a  "), Span(" b"), T("\n")>>),
  El("text", <<>>, <<Span("a"), C("note"), T(" b"), E("a", <<>>)>>), El("text", <<>>, <<El("a", <<>>, <<T("link")>>), T(" tail")>>),
  El("g", <<A("xml:space", "preserve")>>, <<El("text", <<>>, <<T(" in  ")>>), T("  ")>>), El("g", <<A("xml:space", "preserve")>>, <<El("text", <<A("xml:space", "default")>>, <<T(" in  out ")>>), El("title", <<>>, <<T(" x  y")>>)>>),
  E("path", <<A("d", "M0 0h10v10Z"), A("fill", "red")>>), E("rect", <<A("x", "10"), A("width", "50%"), A("rx", ".5"), A("transform", "translate(5 6)")>>), E("path", <<A("data-x", "a<b>&'\"c"), A("class", "a b")>>),
  E("path", <<A("data-x", "line\nbreak\ttab"), A("data-y", "  two  spaces ")>>), E("path", <<A("data-x", ""), A("id", "k")>>),
  E("rect", <<A("style", "fill:red;stroke-width:2"), A("stroke-dasharray", "1 2"), A("opacity", ".5")>>), E("svg", <<A("viewBox", "0 0 10 20"), A("width", "10"), A("height", "5mm")>>),
  E("polygon", <<A("points", "0 0 5 5 10 0")>>), E("use", <<A("xlink:href", "#a&b"), A("href", "x?a=1&b=2#k")>>), E("a", <<A("href", "#k")>>),
  E("animate", <<A("attributeName", "x"), A("values", "0;10;5"), A("begin", "a.click;2s"), A("dur", "1s")>>), E("text", <<A("font-family", "Some Font,serif"), A("x", "1 2 3")>>), E("a", <<A("rel", "zz"), A("role", "zz")>>), E("a", <<A("rel", "external nofollow"), A("role", "zz yy")>>), E("text", <<A("font-family", "A, B C,serif")>>),
  E("feColorMatrix", <<A("values", "1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0"), A("type", "matrix")>>), E("unknown", <<A("who", "me")>>), E("image", <<A("preserveAspectRatio", "xMidYMid slice")>>),
  E("e:thing", <<A("id", "x"), A("e:a", "1"), A("a", "2")>>), El("k:thing", <<A("xmlns:k", "urn:k"), A("k:a", "1")>>, <<E("k:in", <<>>)>>), El("g", <<A("xmlns:e", "urn:other"), A("e:b", "2")>>, <<E("e:in", <<A("e:c", "3")>>)>>),
  El("g", <<A("xmlns:f", "urn:e")>>, <<E("f:in", <<A("f:c", "3"), A("e:d", "4")>>)>>), El("div", <<A("xmlns", "http://www.w3.org/1999/xhtml"), A("class", "c")>>, <<El("p", <<>>, <<T("para")>>), E("svg", <<A("xmlns", "http://www.w3.org/2000/svg")>>)>>),
  El("thing", <<A("xmlns", "")>>, <<E("in", <<A("e:c", "3")>>)>>), E("s:rect", <<A("xmlns:s", "http://www.w3.org/2000/svg"), A("s:fill", "red"), A("fill", "blue")>>), E("path", <<A("xml:lang", "en"), A("xmlns:unused", "urn:unused")>>),
  El("foreignObject", <<>>, <<El("p", <<A("xmlns", "http://www.w3.org/1999/xhtml")>>, <<T("a "), El("b", <<>>, <<T("b")>>), T(" c")>>)>>),
  El("style", <<>>, <<T("a > b{fill:red}")>>), El("style", <<>>, <<T("a{fill:url(\"x?a&b\")}")>>), El("style", <<>>, <<CD(".a{stroke:red}#b{fill:lime}")>>), E("style", <<>>), El("style", <<>>, <<T(".a{fill:red} }{ broken")>>), El("style", <<A("type", "text/other")>>, <<T("a < b & c")>>),
  El("style", <<A("xmlns:e", "urn:other"), A("e:k", "1")>>, <<T(".c{fill:blue}")>>), El("script", <<>>, <<T("if (a < b && c) { d() }")>>)
>>
Wraps == <<
  <<"", <<>>>>, <<"g", <<>>>>, <<"text", <<>>>>, <<"tspan", <<>>>>, <<"title", <<>>>>, <<"a", <<>>>>, <<"g", <<A("xml:space", "preserve")>>>>, <<"text", <<A("xml:space", "preserve")>>>>, <<"text", <<A("xml:space", "default")>>>>,
  <<"g", <<A("xmlns:e", "urn:other")>>>>, <<"g", <<A("xmlns:f", "urn:e")>>>>, <<"defs", <<>>>>, <<"e:wrap", <<>>>>, <<"k:wrap", <<A("xmlns:k", "urn:k")>>>>
>>
Wrap(w, kids) == IF Wraps[w][1] = "" THEN kids ELSE <<El(Wraps[w][1], Wraps[w][2], kids)>>
Kids == [k \in DOMAIN items |-> Items[items[k]]]
\* something follows the wrappers, to see that what they declare ends with them
After == <<El("text", <<>>, <<T(" t  ail "), Span("x")>>), E("e:last", <<A("e:z", "9")>>)>>
Tree == [kids |-> Wrap(outer, Wrap(inner, Kids)) \o (IF outer + inner > 2 THEN After ELSE <<>>)]
Emit(t) == PrintT("@@" \o ToJson(t))

Init == outer = 1 /\ inner = 1 /\ items = <<>> /\ last = 0
Choose == /\ last = 0
          /\ \/ inner' \in DOMAIN Wraps /\ items' \in {<<k>> : k \in DOMAIN Items} /\ UNCHANGED outer
             \/ MaxItems > 1 /\ outer' \in DOMAIN Wraps /\ inner' \in DOMAIN Wraps /\ items' \in {<<k>> : k \in DOMAIN Items}
             \/ MaxItems > 1 /\ inner' \in DOMAIN Wraps /\ items' \in {<<k, m>> : k, m \in DOMAIN Items} /\ UNCHANGED outer
          /\ last' = 1
          /\ Emit(Tree')
Spec == Init /\ [][Choose]_<<outer, inner, items, last>>

InitR == outer \in DOMAIN Wraps /\ inner \in DOMAIN Wraps /\ items = <<>> /\ last = 0
Roam == \E k \in {RandomElement(DOMAIN Items)} : items' = Append(items, k) /\ last' = 1 /\ UNCHANGED <<outer, inner>> /\ (IF Len(items) > 1 THEN Emit(Tree') ELSE TRUE)
RoamSpec == InitR /\ [][Roam]_<<outer, inner, items, last>>
=============================================================================
