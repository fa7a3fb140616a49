------------------------------ MODULE GenExact ------------------------------
(* Documents for the targeted jobs: a row of items, inside the root or a group  *)
(* in it, with attributes of the root and things before it.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxItems
VARIABLES root, before, inner, items, last

El(n, at, kids) == [n |-> n, at |-> at, kids |-> kids]
A(n, v) == [a |-> n, v |-> v]
T(s) == [n |-> "#text", at |-> <<A("t", s)>>, kids |-> <<>>]
C(s) == [n |-> "#comment", at |-> <<A("t", s)>>, kids |-> <<>>]
PI(t, s) == [n |-> "#pi", at |-> <<A("n", t), A("t", s)>>, kids |-> <<>>]
E(n, at) == El(n, at, <<>>)
Pt(at) == E("path", at \o <<A("d", "M0 0h10v10z")>>)
Ink == "http://www.inkscape.org/namespaces/inkscape"

Items == <<
  C("plain"), C("!legal"), C("keep me"), PI("target", "some data"), T("words"),
  El("metadata", <<>>, <<El("title", <<>>, <<T("in metadata")>>)>>),
  El("title", <<>>, <<T("a title")>>), El("g", <<>>, <<El("title", <<A("id", "t")>>, <<T("a title")>>), Pt(<<>>)>>),
  E("desc", <<>>), El("desc", <<>>, <<T("Created with Tool")>>), El("desc", <<>>, <<T("Created using Tool")>>), El("desc", <<>>, <<T("Not Created with")>>), El("desc", <<A("class", "a")>>, <<T("real")>>),
  El("script", <<>>, <<T("run()")>>), E("script", <<A("href", "x.js")>>),
  Pt(<<A("onclick", "go()"), A("fill", "red"), A("onmouseover", "go()")>>), E("rect", <<A("onload", "go()")>>),
  El("a", <<A("href", "javascript:go()")>>, <<Pt(<<>>), T("words"), E("rect", <<>>)>>), El("a", <<A("xlink:href", "javascript:go()")>>, <<T("words"), El("g", <<>>, <<T("inner")>>)>>),
  El("a", <<A("href", "page.html#javascript:")>>, <<Pt(<<>>)>>),
  El("style", <<>>, <<T(".a{fill:red}")>>), El("style", <<A("media", "print")>>, <<T(".a{fill:red}")>>),
  E("image", <<A("xlink:href", "a.png")>>), E("image", <<A("xlink:href", "data:image/jpeg;base64,AAAA")>>), E("image", <<A("xlink:href", "a.svg"), A("width", "10")>>),
  E("image", <<A("xlink:href", "data:image/svg+xml;base64,AAAA")>>), E("image", <<A("xlink:href", "b.gif")>>), E("image", <<A("xlink:href", "b.jpg"), A("id", "x")>>), E("feImage", <<A("xlink:href", "a.png")>>),
  El("svg", <<A("width", "10"), A("height", "20")>>, <<Pt(<<>>)>>), El("svg", <<A("viewBox", "0 0 10 20"), A("width", "10"), A("height", "20")>>, <<Pt(<<>>)>>),
  E("rect", <<A("width", "10"), A("height", "20")>>),
  El("pattern", <<A("width", "10"), A("height", "20"), A("viewBox", "0 0 10 20")>>, <<Pt(<<>>)>>), El("symbol", <<A("viewBox", "0 0 10 20"), A("width", "10"), A("height", "20")>>, <<Pt(<<>>)>>),
  El("pattern", <<A("width", "10"), A("height", "20"), A("viewBox", "0 0 10 30")>>, <<Pt(<<>>)>>), El("symbol", <<A("viewBox", "5 0 10 20"), A("width", "10"), A("height", "20")>>, <<Pt(<<>>)>>),
  El("view", <<A("viewBox", "0 0 10 20")>>, <<>>),
  Pt(<<A("inkscape:label", "l"), A("fill", "red")>>), El("inkscape:grid", <<A("x", "1")>>, <<Pt(<<>>)>>), El("g", <<A("xmlns:inkscape", Ink)>>, <<Pt(<<A("inkscape:label", "l")>>)>>),
  El("g", <<A("xmlns:k", Ink)>>, <<E("k:thing", <<>>), Pt(<<A("k:label", "l")>>)>>), E("e:thing", <<A("id", "x")>>), Pt(<<A("e:label", "l")>>),
  Pt(<<A("fill", "red"), A("stroke", "currentColor")>>), E("rect", <<A("fill", "red"), A("class", "a")>>), E("rect", <<A("fill", "currentColor"), A("stroke", "red"), A("id", "x")>>), El("g", <<A("fill", "red")>>, <<Pt(<<A("fill", "blue"), A("class", "a b")>>)>>),
  El("g", <<A("id", "x"), A("class", "b")>>, <<Pt(<<A("class", "a")>>), C("inside")>>), Pt(<<A("id", "y"), A("class", "b a c")>>), Pt(<<A("class", "ab")>>),
  Pt(<<A("data-n", ""), A("fill", "red")>>), El("g", <<A("requiredFeatures", "")>>, <<Pt(<<A("systemLanguage", ""), A("data-m", "")>>)>>), E("rect", <<A("e:empty", ""), A("xml:lang", "")>>),
  E("text", <<A("x", "5")>>), El("text", <<>>, <<T("words")>>), El("text", <<>>, <<T("one"), E("tspan", <<>>), El("tspan", <<>>, <<T("two")>>)>>), El("text", <<>>, <<T("one"), E("tref", <<>>), E("tref", <<A("xlink:href", "#x")>>)>>),
  E("g", <<>>), El("g", <<>>, <<E("g", <<A("id", "x")>>)>>), E("pattern", <<>>), E("pattern", <<A("id", "y")>>), E("mask", <<A("id", "y")>>), E("mask", <<>>), El("switch", <<>>, <<E("g", <<>>)>>), E("g", <<A("filter", "url(#f)")>>), E("g", <<A("style", "filter:url(#f)")>>),
  E("clipPath", <<A("id", "y")>>), E("symbol", <<>>), E("marker", <<>>), E("a", <<A("href", "x")>>), E("defs", <<>>), El("g", <<>>, <<C("inside")>>), E("svg", <<>>),
  E("rect", <<A("y", "2"), A("stroke-width", "2"), A("x", "1"), A("fill", "red"), A("id", "x"), A("e:z", "1"), A("class", "a"), A("xml:space", "preserve"), A("stroke", "red"), A("data-b", "1"), A("fill-opacity", ".5")>>),
  E("use", <<A("xlink:href", "#x"), A("width", "10"), A("xmlns:v", "urn:v"), A("height", "10"), A("v:a", "1"), A("style", "fill:red"), A("aria-label", "l")>>),
  El("defs", <<>>, <<Pt(<<>>), El("linearGradient", <<A("id", "x")>>, <<E("stop", <<>>)>>), Pt(<<A("id", "y")>>), El("g", <<>>, <<Pt(<<>>), E("rect", <<>>)>>)>>),
  El("defs", <<>>, <<E("rect", <<>>), E("path", <<>>), E("line", <<>>), E("path", <<A("id", "y")>>), E("rect", <<A("id", "x")>>), E("circle", <<>>)>>)
>>

Roots == <<
  <<>>,
  <<A("width", "10"), A("height", "20")>>, <<A("width", "10"), A("height", "20"), A("viewBox", "0 0 10 20")>>, <<A("width", "20px"), A("height", "30"), A("viewBox", "0 0 20 30")>>,
  <<A("viewBox", "0 0 10 20"), A("width", "50%")>>, <<A("width", "50%"), A("height", "20")>>, <<A("viewBox", "0 0 10 30"), A("height", "20"), A("width", "10")>>, <<A("width", "10.5"), A("height", "20")>>,
  <<A("class", "a"), A("id", "x")>>, <<A("class", "b a"), A("fill", "red"), A("data-z", "")>>,
  <<A("inkscape:version", "1"), A("version", "1.1")>>, <<A("data-a", "old"), A("onload", "go()")>>, <<A("xmlns:unused", "urn:unused"), A("e:k", "1")>>
>>
Befores == << <<>>, <<PI("xml", "version=\"1.0\"")>>, <<PI("xml", "version=\"1.0\" encoding=\"utf-8\""), C("plain")>>, <<C("!legal")>>, <<[n |-> "#doctype", at |-> <<A("t", "svg")>>, kids |-> <<>>]>>, <<PI("xml", "version=\"1.0\""), [n |-> "#doctype", at |-> <<A("t", "svg")>>, kids |-> <<>>], C("plain")>>, <<PI("target", "data")>> >>
Afters == << <<>>, <<C("plain")>>, <<C("keep me"), C("plain")>>, <<PI("target", "data"), C("!legal")>>, <<>>, <<C("plain")>>, <<>> >>
Inner == {"svg", "g", "text", "defs"}
Tree == LET kids == [k \in DOMAIN items |-> Items[items[k]]] IN
        [before |-> Befores[before], after |-> Afters[before], root |-> Roots[root], kids |-> IF inner = "svg" THEN kids ELSE <<El(inner, <<A("id", "w")>>, kids)>>]
Emit(t) == PrintT("@@" \o ToJson(t))

Init == root = 1 /\ before = 1 /\ items = <<>> /\ last = 0 /\ inner = "svg"
\* exhaustive: every root with every prolog; every item in every place; every pair of items
Choose == /\ last = 0
          /\ \/ root' \in DOMAIN Roots /\ before' \in DOMAIN Befores /\ items' = <<>> /\ UNCHANGED inner
             \/ root' \in DOMAIN Roots /\ items' \in {<<k>> : k \in DOMAIN Items} /\ UNCHANGED <<before, inner>>
             \/ inner' \in Inner /\ items' \in {<<k>> : k \in DOMAIN Items} /\ UNCHANGED <<before, root>>
             \/ MaxItems > 1 /\ items' \in {<<k, m>> : k, m \in DOMAIN Items} /\ UNCHANGED <<before, root, inner>>
          /\ last' = 1
          /\ Emit(Tree')
Spec == Init /\ [][Choose]_<<root, before, inner, items, last>>

\* simulation: rows of many items
InitR == root \in DOMAIN Roots /\ before \in DOMAIN Befores /\ inner \in Inner /\ items = <<>> /\ last = 0
Roam == \E k \in {RandomElement(DOMAIN Items)} : items' = Append(items, k) /\ last' = 1 /\ UNCHANGED <<root, before, inner>> /\ (IF Len(items) > 2 THEN Emit(Tree') ELSE TRUE)
RoamSpec == InitR /\ [][Roam]_<<root, before, inner, items, last>>
=============================================================================
