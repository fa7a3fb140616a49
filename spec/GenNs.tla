------------------------------- MODULE GenNs --------------------------------
(* Documents about namespaces and odd content: under one of several roots and   *)
(* up to two wrappers, a row of items that declare, shadow and use prefixes, or  *)
(* hold values that are empty, broken or extreme.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxItems
VARIABLES root, wrap, items, last

El(n, at, kids) == [n |-> n, at |-> at, kids |-> kids]
A(n, v) == [a |-> n, v |-> v]
E(n, at) == El(n, at, <<>>)
Leaf(n, s) == [n |-> n, at |-> <<A("t", s)>>, kids |-> <<>>]
T(s) == Leaf("#text", s)
C(s) == Leaf("#comment", s)
PI(t, s) == [n |-> "#pi", at |-> <<A("n", t), A("t", s)>>, kids |-> <<>>]
SVG == "http://www.w3.org/2000/svg"
XL == "http://www.w3.org/1999/xlink"
INK == "http://www.inkscape.org/namespaces/inkscape"
SODI == "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd"
XHTML == "http://www.w3.org/1999/xhtml"
D1 == "M0 0h10v10h-10z"

Spaces == <<
  E("e:thing", <<A("id", "x"), A("e:a", "1"), A("a", "2")>>), El("k:thing", <<A("xmlns:k", "urn:k"), A("k:a", "1")>>, <<E("k:in", <<>>)>>),
  El("g", <<A("xmlns:e", "urn:other"), A("e:b", "2")>>, <<E("e:in", <<A("e:c", "3")>>), E("path", <<A("d", D1), A("e:fill", "red")>>)>>),
  El("g", <<A("xmlns:f", "urn:e")>>, <<E("f:in", <<A("f:c", "3"), A("e:d", "4")>>)>>), El("g", <<A("xmlns:f", "urn:f")>>, <<E("path", <<A("d", D1), A("f:c", "3")>>)>>),
  El("g", <<A("xmlns:f", "urn:f"), A("fill", "red")>>, <<E("path", <<A("d", D1)>>)>>), El("g", <<A("xmlns:f", "urn:f"), A("f:q", "1")>>, <<E("path", <<A("d", D1), A("f:c", "3"), A("fill", "red")>>)>>),
  El("div", <<A("xmlns", XHTML), A("class", "c")>>, <<El("p", <<>>, <<T("para")>>), El("svg", <<A("xmlns", SVG)>>, <<E("rect", <<A("width", "5"), A("height", "5")>>)>>)>>),
  El("foreignObject", <<A("width", "9")>>, <<El("p", <<A("xmlns", XHTML), A("e:p", "1")>>, <<T("a "), El("b", <<>>, <<T("b")>>), T(" c")>>)>>),
  El("thing", <<A("xmlns", "")>>, <<E("in", <<A("e:c", "3")>>), E("path", <<A("d", D1)>>)>>), E("s:rect", <<A("xmlns:s", SVG), A("width", "5"), A("height", "5"), A("fill", "blue")>>),
  El("s:g", <<A("xmlns:s", SVG)>>, <<E("s:path", <<A("d", D1), A("s:fill", "red")>>), E("path", <<A("d", D1)>>)>>), E("path", <<A("d", D1), A("xml:lang", "en"), A("xmlns:unused", "urn:unused")>>),
  E("use", <<A("xlink:href", "#k"), A("id", "u")>>), E("use", <<A("x:href", "#k"), A("xmlns:x", XL)>>), E("image", <<A("xlink:href", "a.png"), A("xlink:title", "t"), A("width", "5"), A("height", "5")>>),
  El("a", <<A("xlink:href", "#k"), A("xlink:show", "new"), A("xlink:title", "t")>>, <<E("path", <<A("d", D1)>>)>>), El("g", <<A("xmlns:xlink", "urn:not")>>, <<E("path", <<A("d", D1), A("xlink:href", "#k")>>)>>),
  El("g", <<A("xmlns:inkscape", "urn:mine")>>, <<E("inkscape:keep", <<A("inkscape:label", "1")>>), E("path", <<A("d", D1), A("inkscape:label", "l")>>)>>),
  E("inkscape:path-effect", <<A("id", "pe")>>), E("path", <<A("d", D1), A("inkscape:label", "l"), A("e:label", "m")>>), El("g", <<A("xmlns:ink", INK), A("ink:label", "l")>>, <<E("path", <<A("d", D1), A("ink:x", "y")>>), E("ink:thing", <<>>)>>),
  El("sodipodi:namedview", <<A("xmlns:sodipodi", SODI), A("sodipodi:a", "1")>>, <<E("inkscape:grid", <<>>)>>), El("metadata", <<>>, <<El("r:RDF", <<A("xmlns:r", "urn:rdf")>>, <<E("r:li", <<A("r:about", "x")>>)>>)>>),
  El("defs", <<>>, <<E("e:d", <<A("e:a", "1")>>), E("path", <<A("id", "k"), A("d", D1), A("e:a", "1")>>), E("path", <<A("d", D1)>>)>>), El("switch", <<>>, <<E("e:s", <<>>), E("path", <<A("d", D1), A("requiredExtensions", "urn:e")>>)>>),
  El("e:g", <<A("xmlns", "urn:def")>>, <<E("path", <<A("d", D1), A("fill", "red")>>), E("rect", <<A("width", "0")>>)>>), El("g", <<A("xmlns:e", "urn:e")>>, <<El("g", <<A("xmlns:e", "urn:2")>>, <<E("e:x", <<>>)>>), E("e:x", <<A("e:y", "1")>>)>>)
>>
Odd == <<
  E("path", <<>>), E("path", <<A("d", "")>>), E("path", <<A("d", "M")>>), E("path", <<A("d", "L5 5")>>), E("path", <<A("d", "M0 0")>>), E("path", <<A("d", "M0 0L5 5 x 9")>>), E("path", <<A("d", "M1e400 0L5 1e-400")>>), E("path", <<A("d", "zzz")>>),
  E("path", <<A("d", "M0 0A0 0 0 0 0 5 5")>>), E("path", <<A("d", "M0 0A5 5 0 1 1 0 0")>>), E("path", <<A("d", "M0 0C1 1 1 1 1 1S1 1 1 1Q1 1 1 1T1 1z"), A("stroke", "red")>>), E("path", <<A("d", D1), A("transform", "")>>), E("path", <<A("d", D1), A("transform", "scale(0)")>>),
  E("path", <<A("d", D1), A("transform", "rotate(")>>), E("path", <<A("d", D1), A("transform", "matrix(1 2)")>>), E("path", <<A("d", D1), A("transform", "matrix(0 0 0 0 0 0)"), A("stroke", "red")>>), E("path", <<A("d", D1), A("transform", "rotate(1e9) skewX(90) scale(1e300)")>>),
  E("rect", <<A("width", "-5"), A("height", "nan")>>), E("rect", <<A("width", "5"), A("height", "5"), A("rx", "auto"), A("ry", "-1")>>), E("rect", <<A("x", ""), A("width", "1e99"), A("height", ".")>>), E("circle", <<A("r", "0")>>), E("ellipse", <<A("rx", "5")>>), E("ellipse", <<A("rx", "5"), A("ry", "5.0")>>),
  E("line", <<>>), E("polyline", <<A("points", "")>>), E("polyline", <<A("points", "1")>>), E("polygon", <<A("points", "1,2,3")>>), E("polygon", <<A("points", "a b c")>>), E("polygon", <<A("points", "0 0 5 5 0 5"), A("stroke-width", "-1")>>),
  E("path", <<A("d", D1), A("style", "")>>), E("path", <<A("d", D1), A("style", ";;fill:;:red;x")>>), E("path", <<A("d", D1), A("style", "fill:red}a{b")>>), E("path", <<A("d", D1), A("class", ""), A("id", "")>>), E("path", <<A("d", D1), A("class", "  a  a "), A("id", "a b")>>),
  E("path", <<A("d", D1), A("fill", "url(#)")>>), E("path", <<A("d", D1), A("fill", "url(")>>), E("path", <<A("d", D1), A("fill", "")>>), E("path", <<A("d", D1), A("fill", "#ggg"), A("stroke", "rgb(1,2)")>>), E("path", <<A("d", D1), A("fill", "rgb(300,-5,1e9)"), A("opacity", "-2")>>),
  E("path", <<A("d", D1), A("stroke", "red"), A("stroke-width", "1e-20"), A("stroke-dasharray", "a"), A("stroke-dashoffset", "x")>>), E("use", <<A("href", "#")>>), E("use", <<A("href", "")>>), E("use", <<A("id", "u1"), A("href", "#u1")>>),
  El("g", <<A("id", "c1")>>, <<E("use", <<A("href", "#c1")>>)>>), E("linearGradient", <<A("id", "l1"), A("href", "#l1")>>), El("linearGradient", <<A("id", "l2")>>, <<E("stop", <<A("offset", "x"), A("stop-color", "?")>>)>>), E("linearGradient", <<>>),
  El("pattern", <<A("id", "p1"), A("href", "#p1")>>, <<E("path", <<A("d", D1), A("fill", "url(#p1)")>>)>>), El("clipPath", <<A("id", "cp"), A("clip-path", "url(#cp)")>>, <<E("path", <<A("d", D1), A("clip-path", "url(#cp)")>>)>>), El("mask", <<A("id", "m1"), A("mask", "url(#m1)")>>, <<>>),
  E("filter", <<A("id", "f1"), A("enable-background", "new 0 0")>>), El("svg", <<A("viewBox", "0 0"), A("width", ""), A("height", "5xx")>>, <<E("path", <<A("d", D1)>>)>>), El("svg", <<A("viewBox", ""), A("enable-background", "accumulate")>>, <<>>), El("symbol", <<>>, <<T("loose")>>),
  El("style", <<>>, <<T("")>>), El("style", <<>>, <<T("{}")>>), El("style", <<>>, <<T("a{")>>), El("style", <<>>, <<T("@media{a{fill:red}}@x;#a b{}")>>), El("style", <<>>, <<T(":not(){fill:red}a::{}")>>), El("style", <<A("media", "(")>>, <<T("path{fill:red}")>>), El("style", <<>>, <<E("path", <<A("d", D1)>>)>>),
  El("style", <<>>, <<T(".a{fill:red;fill:url(#q)}"), C("c"), T("#a{stroke:red}")>>), El("style", <<>>, <<T("path:hover{fill:red}path{fill:var(--x)}")>>), El("script", <<>>, <<T("a<b")>>), El("script", <<A("type", "")>>, <<>>), E("path", <<A("d", D1), A("onclick", "")>>),
  El("text", <<A("x", ""), A("y", "1 2 3")>>, <<T("")>>), El("text", <<>>, <<El("tspan", <<>>, <<El("tspan", <<>>, <<>>)>>)>>), El("text", <<>>, <<E("tref", <<A("xlink:href", "")>>), T(" ")>>), El("text", <<>>, <<El("textPath", <<A("href", "#none")>>, <<T("p")>>)>>), T("loose & text"), C("c"), PI("x", ""),
  El("animate", <<A("attributeName", ""), A("values", ";;"), A("begin", "x.y;"), A("dur", "-")>>, <<>>), E("animateTransform", <<A("type", "?"), A("from", "a")>>), E("set", <<A("href", "#nothing"), A("to", "")>>), E("marker", <<A("viewBox", "a b c d"), A("refX", "left")>>), El("switch", <<>>, <<>>),
  E("image", <<A("href", "data:"), A("preserveAspectRatio", "x")>>), E("feImage", <<A("xlink:href", "#")>>), E("feColorMatrix", <<A("values", "1 2")>>), E("font-face", <<>>), El("a", <<>>, <<El("a", <<>>, <<E("path", <<A("d", D1)>>)>>)>>), El("g", <<>>, <<El("g", <<>>, <<El("g", <<>>, <<>>)>>)>>), El("defs", <<>>, <<T("x"), C("y")>>)
>>
Items == Spaces \o Odd
Base == <<A("xmlns", SVG), A("xmlns:xlink", XL), A("xmlns:e", "urn:e"), A("xmlns:inkscape", INK)>>
Roots == << <<"svg", Base>>, <<"svg", Base \o <<A("width", "10"), A("height", "10"), A("viewBox", "0 0 10 10"), A("e:v", "1"), A("inkscape:version", "2")>>>>,
            <<"s:svg", <<A("xmlns:s", SVG), A("xmlns:xlink", XL), A("xmlns:e", "urn:e"), A("xmlns:inkscape", INK)>>>>,
            <<"svg", Base \o <<A("width", ""), A("height", "x"), A("viewBox", "0 0 0 0"), A("class", ""), A("style", "fill:"), A("xmlns:xlink2", XL)>>>> >>
Wraps == << <<"", <<>>>>, <<"g", <<>>>>, <<"g", <<A("xmlns:e", "urn:other"), A("e:w", "1")>>>>, <<"g", <<A("xmlns:f", "urn:e"), A("fill", "red")>>>>, <<"defs", <<>>>>, <<"e:wrap", <<A("e:w", "2")>>>>, <<"k:wrap", <<A("xmlns:k", "urn:k")>>>>,
            <<"text", <<>>>>, <<"svg", <<A("xmlns", SVG)>>>>, <<"s:g", <<A("xmlns:s", SVG), A("transform", "scale(2)")>>>>, <<"foreignObject", <<>>>>, <<"style", <<>>>>, <<"linearGradient", <<A("id", "w")>>>> >>
Tree == LET ks == [k \in DOMAIN items |-> Items[items[k]]]
        IN [n |-> Roots[root][1], at |-> Roots[root][2],
            kids |-> (IF wrap = 1 THEN ks ELSE <<El(Wraps[wrap][1], Wraps[wrap][2], ks)>>) \o (IF wrap = 1 THEN <<>> ELSE <<E("e:last", <<A("e:z", "9")>>), E("path", <<A("d", D1), A("xlink:href", "#k")>>)>>)]
Emit(t) == PrintT("@@" \o ToJson(t))

Init == root = 1 /\ wrap = 1 /\ items = <<>> /\ last = 0
Choose == /\ last = 0 /\ last' = 1
          /\ \/ root' \in DOMAIN Roots /\ wrap' \in DOMAIN Wraps /\ items' \in {<<k>> : k \in DOMAIN Items}
             \/ MaxItems > 1 /\ root' = 1 /\ wrap' \in {1, 2} /\ items' \in {<<k, m>> : k, m \in DOMAIN Items}
          /\ Emit(Tree')
Spec == Init /\ [][Choose]_<<root, wrap, items, last>>

InitR == root \in DOMAIN Roots /\ wrap \in DOMAIN Wraps /\ items = <<>> /\ last = 0
Roam == \E k \in {RandomElement(DOMAIN Items)} : items' = Append(items, k) /\ last' = 1 /\ UNCHANGED <<root, wrap>> /\ (IF Len(items) > 1 THEN Emit(Tree') ELSE TRUE)
RoamSpec == InitR /\ [][Roam]_<<root, wrap, items, last>>
=============================================================================
