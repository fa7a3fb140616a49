------------------------------ MODULE GenJsx ------------------------------
(* Documents and options for conversion: every attribute, every text in every surrounding, every kind of node, every option, pairs of options. *)
EXTENDS Jsx, Json
CONSTANTS Part
VARIABLES doc, n

A(k, v) == [k |-> k, p |-> CASE k \in {"xlink:href", "xlink:title", "xlink:show", "xlink:type", "xlink:actuate", "xlink:role", "xlink:arcrole"} -> "xlink" [] k \in {"xml:space", "xml:lang", "xml:base"} -> "xml" [] k = "e:a" -> "e" [] OTHER -> "", v |-> v, decls |-> <<>>]
S(ds) == [k |-> "style", p |-> "", v |-> "", decls |-> ds]
E(k, parent, as) == [t |-> "el", k |-> k, p |-> IF k = "e:g" THEN "e" ELSE "", parent |-> parent, attrs |-> as, s |-> ""]
T(s, parent) == [t |-> "text", k |-> "", p |-> "", parent |-> parent, attrs |-> <<>>, s |-> s]
O(t, s, parent) == [t |-> t, k |-> "", p |-> "", parent |-> parent, attrs |-> <<>>, s |-> s]
Ns == <<[A("xmlns", "http://www.w3.org/2000/svg") EXCEPT !.p = ""], A("xmlns:xlink", "http://www.w3.org/1999/xlink"), A("xmlns:e", "urn:e")>>
Root(as) == E("svg", 0, Ns \o as)
Emit(d, o) == PrintT("@@" \o ToJson([doc |-> d, opts |-> o]))

Everywhere == {A("class", "k"), A("id", "a"), A("fill", "red"), A("stroke-width", "2"), A("stroke-linecap", "round"), A("stroke-linejoin", "bevel"), A("stroke-miterlimit", "3"), A("stroke-dasharray", "1"), A("stroke-dashoffset", "2"),
  A("stroke-opacity", "0.5"), A("fill-opacity", "0.5"), A("fill-rule", "evenodd"), A("clip-rule", "evenodd"), A("clip-path", "url(#a)"), A("mask", "url(#a)"), A("filter", "url(#a)"), A("marker-start", "url(#a)"), A("marker-mid", "url(#a)"), A("marker-end", "url(#a)"),
  A("opacity", "0.5"), A("color-interpolation", "linearrgb"), A("color-interpolation-filters", "srgb"), A("shape-rendering", "crispedges"), A("text-rendering", "optimizespeed"), A("image-rendering", "optimizespeed"), A("pointer-events", "none"),
  A("vector-effect", "non-scaling-stroke"), A("text-anchor", "end"), A("font-size", "3px"), A("font-family", "Arial"), A("font-weight", "700"), A("font-style", "italic"), A("letter-spacing", "2px"), A("word-spacing", "2px"),
  A("dominant-baseline", "middle"), A("alignment-baseline", "middle"), A("baseline-shift", "sub"), A("stop-color", "red"), A("stop-opacity", "0.5"), A("flood-color", "red"), A("flood-opacity", "0.5"), A("lighting-color", "red"),
  A("unicode-bidi", "embed"), A("enable-background", "new"), A("visibility", "hidden"), A("display", "none"), A("tabindex", "1"), A("aria-label", "x y"), A("role", "img"), A("lang", "en"), A("data-x", "1 2"), A("data-x-y_z", "{}"), A("transform", "scale(2)"),
  A("xml:space", "preserve"), A("xml:lang", "en"), A("xml:base", "b"), A("foo", "1"), A("foo-bar", "1"), A("e:a", "1"), A("x", "0.1"), A("width", "5"), A("height", "0.3"), A("rx", "2"), A("pathLength", "0.7"), A("focusable", "false"),
  S(<<<<"fill", "red">>>>), S(<<<<"stroke-linecap", "round">>, <<"--x-y", "1">>>>), S(<<<<"-webkit-filter", "none">>, <<"filter", "none">>>>), S(<<<<"font-family", "Arial">>, <<"opacity", "0.5">>, <<"fill-rule", "evenodd">>>>), S(<<<<"-webkit-user-select", "none">>>>), S(<<>>)}
On(k) == CASE k = "svg" -> {A("viewBox", "0 0 1 1"), A("preserveAspectRatio", "none"), A("version", "1.1"), A("width", "5"), A("height", "2em"), A("baseProfile", "full")}
  [] k = "path" -> {A("d", "M0 0h1")}
  [] k = "linearGradient" -> {A("gradientUnits", "userSpaceOnUse"), A("gradientTransform", "scale(2)"), A("spreadMethod", "reflect"), A("href", "#a"), A("xlink:href", "#a"), A("xlink:title", "t"), A("x1", "0.5")}
  [] k = "pattern" -> {A("patternUnits", "userSpaceOnUse"), A("patternContentUnits", "objectBoundingBox"), A("patternTransform", "scale(2)")}
  [] k = "marker" -> {A("markerWidth", "2"), A("markerHeight", "3"), A("refX", "4"), A("refY", "5"), A("orient", "auto"), A("markerUnits", "userSpaceOnUse")}
  [] k = "stop" -> {A("offset", "0.5")}
  [] k = "clipPath" -> {A("clipPathUnits", "objectBoundingBox")}
  [] k = "mask" -> {A("maskUnits", "userSpaceOnUse"), A("maskContentUnits", "objectBoundingBox")}
  [] k = "filter" -> {A("filterUnits", "userSpaceOnUse"), A("primitiveUnits", "objectBoundingBox")}
  [] k = "feGaussianBlur" -> {A("stdDeviation", "2"), A("edgeMode", "wrap"), A("in", "SourceAlpha")}
  [] k = "feDisplacementMap" -> {A("xChannelSelector", "R"), A("yChannelSelector", "G"), A("scale", "2")}
  [] k = "feTurbulence" -> {A("baseFrequency", "0.5"), A("numOctaves", "2"), A("stitchTiles", "stitch"), A("type", "turbulence")}
  [] k = "feConvolveMatrix" -> {A("kernelMatrix", "1"), A("preserveAlpha", "true"), A("targetX", "1"), A("edgeMode", "none")}
  [] k = "text" -> {A("textLength", "5"), A("lengthAdjust", "spacing"), A("dx", "2"), A("rotate", "3")}
  [] k = "textPath" -> {A("startOffset", "5"), A("href", "#a")}
  [] k = "animate" -> {A("attributeName", "x"), A("repeatCount", "2"), A("calcMode", "linear"), A("keyTimes", "0;1"), A("values", "0;1"), A("dur", "2"), A("attributeType", "XML")}
  [] k = "a" -> {A("target", "_blank"), A("hreflang", "en"), A("xlink:href", "#a"), A("xlink:show", "new"), A("xlink:type", "simple"), A("xlink:actuate", "onLoad"), A("xlink:role", "r"), A("xlink:arcrole", "r"), A("href", "b?c=d&e"), A("rel", "x")}
  [] k = "image" -> {A("href", "i.png"), A("crossorigin", "anonymous"), A("width", "5")}
  [] k = "use" -> {A("href", "#a"), A("xlink:href", "#a"), A("x", "1"), A("width", "5")}
  [] k = "circle" -> {A("r", "2"), A("cx", "0.25")}
  [] OTHER -> {}
Parents == {"svg", "path", "linearGradient", "pattern", "marker", "stop", "clipPath", "mask", "filter", "feGaussianBlur", "feDisplacementMap", "feTurbulence", "feConvolveMatrix", "text", "textPath", "animate", "a", "image", "use", "circle"}
AttrDocs == {<<Root(<<>>), E(k, 1, <<a>>)>> : k \in {"rect", "g", "text"}, a \in {b \in Everywhere : TRUE}}
  \cup {<<Root(<<>>), E(k, 1, <<a>>)>> : k \in Parents, a \in UNION {On(x) : x \in Parents}} \cup {<<Root(<<a>>)>> : a \in Everywhere \cup On("svg")}
Sound(d) == \A m \in DOMAIN d : \A j \in DOMAIN d[m].attrs : LET a == d[m].attrs[j] IN m = 1 \/ a \in Everywhere \/ a \in On(d[m].k)

Strings == {"a\"b", "it's", "\"'", "a&b", "&amp;", "<b>", "{c}", "a\\nb", "a\nb", "é", "", " a ", "a\tb", "&#10;", "\\", "//", "*/", "</g>", "}"}
StringDocs == {<<Root(<<>>), E("g", 1, <<A(k, s)>>)>> : k \in {"aria-label", "data-x"}, s \in Strings} \cup {<<Root(<<>>), E("g", 1, <<A(k, s)>>)>> : k \in {"id", "class"}, s \in Strings \ {" a ", "a\nb", "a\tb"}} \cup {<<Root(<<A("aria-label", s)>>)>> : s \in Strings}
Texts == {"a", " a ", "{b}", "<c>", "a & b", "&lt;", "x\ny", "\n  ", " ", "it's \"q\"", "a\\nb", "é", "}", "//", "a\n  ", "\n b", "{/* c */}", "</text>", "a\tb"}
TextDocs == {<<Root(<<>>), E("text", 1, <<>>), T(s, 2)>> : s \in Texts}
  \cup {<<Root(<<>>), E("text", 1, <<>>), T(s, 2), E("tspan", 2, <<>>), T(u, 4), T(w, 2)>> : s \in Texts, u \in {"a", " ", "{b}"}, w \in {" ", "a ", "x\ny", "\n  "}}
  \cup {<<Root(<<>>), E("text", 1, <<>>), T(s, 2), O(t, "n}", 2), T(u, 2)>> : s \in Texts \ {"\n  "}, t \in {"note", "pi"}, u \in {"a", " b", "{c}"}}
  \cup {<<Root(<<>>), T(s, 1), E("g", 1, <<>>), T(u, 1), E("title", 1, <<>>), T(w, 5)>> : s \in {"\n  ", " "}, u \in {"\n", "\n  "}, w \in Texts}

Kinds == {"g", "rect", "text", "linearGradient", "stop", "defs", "style", "title", "metadata", "filter", "use", "e:g", "symbol", "image", "switch", "font-face", "radialGradient", "line", "polygon", "polyline", "ellipse", "circle", "pattern", "mask", "clipPath", "textPath", "tspan", "foreignObject", "a", "marker", "feGaussianBlur"}
TreeDocs(o) == {<<Root(<<>>), E(a, 1, <<>>), E(b, 2, <<>>), E("g", 1, <<>>)>> : a \in Kinds, b \in Kinds}
Flags == [native : BOOLEAN, dims : BOOLEAN, icon : {"", "true", "2em", "24"}, expand : {"start", "end", "none"}, ref : BOOLEAN, memo : BOOLEAN, title : BOOLEAN, desc : BOOLEAN,
  props : {{}, {<<"fill", "blue", "blue">>, <<"data-t", "x", "x">>}, {<<"width", "{p.w}", "=>p.w">>, <<"id", "s\"t", "s\"t">>}}, replace : {{}, {<<"red", "currentColor", "currentColor">>}, {<<"red", "{p.c}", "=>p.c">>, <<"url(#a)", "none", "none">>}}, named : BOOLEAN, alias : {"", "Foo"}, runtime : {"classic", "automatic", "classic-preact"}]
Full == <<Root(<<A("width", "5"), A("height", "6"), A("fill", "red"), A("aria-labelledby", "z")>>), E("title", 1, <<A("id", "z")>>), T("t", 2), E("g", 1, <<A("fill", "red"), A("clip-path", "url(#a)"), S(<<<<"fill", "red">>>>)>>), E("rect", 4, <<A("width", "7"), A("stroke", "red")>>), E("text", 1, <<>>), T("red", 6), E("desc", 1, <<>>), T("d", 8)>>
Bare == <<Root(<<A("id", "r")>>), E("g", 1, <<>>)>>
Empty == <<Root(<<>>)>>
Emptied == <<Root(<<>>), E("g", 1, <<>>), E("filter", 2, <<>>), E("text", 1, <<>>), E("metadata", 4, <<>>), E("defs", 1, <<>>), E("style", 6, <<>>), E("g", 1, <<>>)>>

Pick(S0) == {RandomElement(S0)}
Init == doc = <<Root(<<>>)>> /\ n = 0
GrowEl == \E m \in Pick({j \in DOMAIN doc : doc[j].t = "el" /\ doc[j].k # "style"}), k \in Pick(Kinds \ {"title", "style"}) : doc' = Append(doc, E(k, m, <<>>))
GrowAttr == \E m \in Pick({j \in DOMAIN doc : doc[j].t = "el"}) :
  LET free == {a \in Everywhere \cup On(doc[m].k) \cup {A("aria-label", s) : s \in Strings} : ~(\E j \in DOMAIN doc[m].attrs : doc[m].attrs[j].k = a.k)}
  IN \E a \in Pick(free) : doc' = [doc EXCEPT ![m].attrs = Append(@, a)]
GrowText == \E m \in Pick({j \in DOMAIN doc : doc[j].t = "el" /\ doc[j].k # "style"}), s \in Pick(Texts), t \in Pick({"text", "text", "text", "note", "pi"}) :
  doc' = Append(doc, IF t = "text" THEN T(s, m) ELSE O(t, "n}", m))
Next ==
  CASE Part = "rows" ->
         \/ n < 16 /\ n' = n + 1 /\ (CASE n % 4 \in {0, 3} -> GrowEl [] n % 4 = 1 -> GrowAttr [] OTHER -> (IF n % 8 = 2 THEN GrowText ELSE GrowAttr))
         \/ n = 16 /\ (\E o \in Pick(Flags) : Emit(doc, o)) /\ n' = 17 /\ UNCHANGED doc
    [] Part = "attrs" -> n = 0 /\ \E d \in {x \in AttrDocs \cup StringDocs : Sound(x) \/ x \in StringDocs} : Emit(d, Plain) /\ n' = 1 /\ UNCHANGED doc
    [] Part = "texts" -> n = 0 /\ \E d \in TextDocs : Emit(d, Plain) /\ n' = 1 /\ UNCHANGED doc
    [] Part = "trees" -> n = 0 /\ \E d \in TreeDocs(Plain), b \in BOOLEAN : Emit(d, [Plain EXCEPT !.native = b]) /\ n' = 1 /\ UNCHANGED doc
    [] Part = "options" -> n = 0 /\ \E o \in Flags, d \in {Full, Bare, Empty, Emptied} : Cardinality({k \in DOMAIN Plain : o[k] # Plain[k]}) <= 2 /\ Emit(d, o) /\ n' = 1 /\ UNCHANGED doc
Spec == Init /\ [][Next]_<<doc, n>>
=============================================================================
