-------------------------------- MODULE Lint --------------------------------
(* What the linter has to say about a document under a set of rules.
   A document is a sequence of nodes; node 1 is the root.  A node is
     [k, p, parent, attrs, css]: k the name as written, p its prefix, css what the text of a style element refers to;
   an attribute is [k, p, v, ref]: ref the id the value refers to, or "". *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

SVG == "http://www.w3.org/2000/svg"
XLINK == "http://www.w3.org/1999/xlink"

RuleNames == {"noUnknownElements", "noUnknownAttributes", "noDeprecated", "noDefaultAttributes", "noXLink", "noUnusedIds", "noUnusedXmlns", "noInvalidAttributes"}
Severities == {"off", "warn", "error"}
RuleOf(kind) == CASE kind = "unknown-element" -> "noUnknownElements"
                  [] kind = "unknown-attribute" -> "noUnknownAttributes"
                  [] kind \in {"deprecated-element", "deprecated-attribute"} -> "noDeprecated"
                  [] kind = "default" -> "noDefaultAttributes"
                  [] kind = "xlink" -> "noXLink"
                  [] kind = "unused-id" -> "noUnusedIds"
                  [] kind = "unused-xmlns" -> "noUnusedXmlns"
                  [] kind = "invalid" -> "noInvalidAttributes"
Recommended == [r \in RuleNames |-> IF r \in {"noDefaultAttributes", "noXLink", "noUnusedIds", "noUnusedXmlns"} THEN "warn" ELSE "error"]

(* ---- namespaces ---- *)
RECURSIVE Above(_, _)
Above(d, n) == IF n = 0 THEN {} ELSE {n} \cup Above(d, d[n].parent)
IsDecl(a) == a.p = "xmlns" \/ a.k = "xmlns"
Declared(a) == IF a.k = "xmlns" THEN "" ELSE a.of
DeclsOf(d, n) == {i \in DOMAIN d[n].attrs : IsDecl(d[n].attrs[i])}
(* the declaration of prefix p in force at n: a pair of a node and an attribute, or <<0, 0>> *)
RECURSIVE InForce(_, _, _)
InForce(d, n, p) == IF n = 0 THEN <<0, 0>>
  ELSE LET here == {i \in DeclsOf(d, n) : Declared(d[n].attrs[i]) = p}
       IN IF here # {} THEN <<n, CHOOSE i \in here : TRUE>> ELSE InForce(d, d[n].parent, p)
Uri(d, n, p) == LET at == InForce(d, n, p) IN IF at[1] = 0 THEN "" ELSE d[at[1]].attrs[at[2]].v
IsSvg(d, n) == Uri(d, n, d[n].p) = SVG

(* ---- content model of SVG 2 for the elements considered ---- *)
Shapes == {"rect", "path", "circle"}
Structural == {"svg", "g", "defs", "symbol", "use"}
Containers == {"svg", "g", "a", "defs", "symbol"}
Elements == Shapes \cup Structural \cup {"text", "tspan", "title", "linearGradient", "stop", "a", "clipPath", "image", "style", "script", "filter", "feFlood", "tref", "switch", "foreignObject", "animate"}
Legacy == {"tref"}
AnyChild == {"title", "foreignObject"}
Kids(p) ==
  CASE p \in Containers -> Shapes \cup Structural \cup {"text", "title", "linearGradient", "a", "clipPath", "image", "style", "script", "filter", "switch", "foreignObject", "animate"}
    [] p \in Shapes -> {"title", "linearGradient", "clipPath", "style", "script", "animate"}
    [] p = "text" -> {"tspan", "title", "linearGradient", "a", "clipPath", "style", "script", "tref", "animate"}
    [] p = "tspan" -> {"tspan", "title", "linearGradient", "a", "style", "script", "tref", "animate"}
    [] p = "linearGradient" -> {"title", "stop", "style", "script", "animate"}
    [] p = "stop" -> {"style", "script", "animate"}
    [] p \in {"use", "image"} -> {"title", "clipPath", "style", "script", "animate"}
    [] p = "clipPath" -> {"rect", "path", "circle", "text", "title", "use", "script", "animate"}
    [] p \in {"style", "script"} -> {}
    [] p = "filter" -> {"title", "script", "feFlood", "animate"}
    [] p = "feFlood" -> {"title", "script", "animate"}
    [] p = "tref" -> {"title", "animate"}
    [] p = "switch" -> {"svg", "g", "rect", "path", "circle", "text", "use", "a", "image", "switch", "foreignObject", "animate"}
    [] p = "animate" -> {"title", "script"}
    [] OTHER -> {}
Known(d, n) == IsSvg(d, n) /\ d[n].k \in Elements
Permits(d, up, n) == ~Known(d, up) \/ d[up].k \in AnyChild \/ (d[n].k \in Kids(d[up].k))

(* ---- attributes ---- *)
Aimed == {"svg", "g", "rect", "path", "text", "tspan", "linearGradient", "stop", "use", "a", "style"}    \* elements whose attributes are judged
Everywhere == {"id", "class", "style", "fill", "stroke-width", "stroke-linecap", "opacity", "fill-opacity", "visibility", "text-anchor", "stop-opacity", "transform", "xml:space", "xml:base", "xml:lang", "tabindex", "onclick", "lang", "stroke", "clip-path", "filter", "mask", "enable-background", "kerning", "font-size", "display"}
XLinks == {"xlink:href", "xlink:show", "xlink:title", "xlink:type", "xlink:actuate"}
OnlyOn(a) ==
  CASE a = "x" -> {"svg", "rect", "text", "tspan", "use"}
    [] a = "width" -> {"svg", "rect", "use"}
    [] a = "d" -> {"path"}
    [] a = "offset" -> {"stop"}
    [] a \in {"version", "viewBox", "baseProfile", "zoomAndPan", "contentScriptType"} -> {"svg"}
    [] a \in XLinks \cup {"href"} -> {"linearGradient", "use", "a"}
    [] a = "target" -> {"a"}
    [] a \in {"gradientUnits", "spreadMethod"} -> {"linearGradient"}
    [] a = "media" -> {"style"}
    [] a = "type" -> {"style", "a"}
    [] a = "pathLength" -> {"rect", "path"}
    [] a = "begin" -> {"animate"}
    [] a \in {"role", "aria-label", "aria-labelledby", "systemLanguage", "requiredExtensions", "requiredFeatures"} -> Aimed \ {"linearGradient", "stop", "style"}
    [] a = "externalResourcesRequired" -> Aimed \ {"stop", "style"}
    [] OTHER -> {}
Named == {"x", "width", "d", "offset", "version", "viewBox", "baseProfile", "zoomAndPan", "contentScriptType", "href", "target", "gradientUnits", "spreadMethod", "media", "type", "pathLength", "begin", "role", "aria-label", "aria-labelledby", "systemLanguage", "requiredExtensions", "requiredFeatures", "externalResourcesRequired"} \cup XLinks
Takes(e, a) == a \in Everywhere \/ e \in OnlyOn(a)
Deprecated == {"xml:space", "xml:base", "xml:lang", "enable-background", "kerning", "version", "baseProfile", "zoomAndPan", "contentScriptType", "requiredFeatures", "externalResourcesRequired"}
Universal == {"xml:space", "xml:base", "xml:lang"}     \* deprecated on any element whatever

(* the values considered, apart from references: [k, v, is] with is in "fine", "default", "invalid", "tail" (invalid from the ! on) *)
Val(k, v, is) == [k |-> k, v |-> v, is |-> is]
Values == {Val("fill", "red", "fine"), Val("fill", "12zz", "invalid"), Val("stroke", "red", "fine"), Val("stroke-width", "1", "default"), Val("stroke-width", "2", "fine"), Val("stroke-width", "q", "invalid"),
  Val("stroke-linecap", "butt", "default"), Val("stroke-linecap", "round", "fine"), Val("opacity", "1", "default"), Val("opacity", ".5", "fine"), Val("opacity", "q", "invalid"), Val("fill-opacity", "1", "default"), Val("stop-opacity", "1", "default"),
  Val("visibility", "visible", "default"), Val("visibility", "hidden", "fine"), Val("visibility", "q", "invalid"), Val("text-anchor", "start", "default"), Val("text-anchor", "end", "fine"),
  Val("transform", "scale(2)", "fine"), Val("transform", "q", "invalid"), Val("x", "1", "fine"), Val("x", "0", "default"), Val("x", "q", "invalid"), Val("width", "5", "fine"), Val("width", "auto?", "invalid"),
  Val("d", "M0 0h1", "fine"), Val("d", "M0 0h1!2h3", "tail"), Val("offset", ".5", "fine"), Val("offset", "q", "invalid"), Val("version", "1.1", "default"), Val("version", "1.0", "fine"), Val("viewBox", "0 0 1 1", "fine"), Val("viewBox", "q", "invalid"),
  Val("baseProfile", "full", "fine"), Val("zoomAndPan", "magnify", "default"), Val("contentScriptType", "a", "fine"), Val("xml:space", "preserve", "fine"), Val("xml:space", "default", "fine"), Val("xml:base", "q", "fine"), Val("xml:lang", "en", "fine"),
  Val("enable-background", "new", "fine"), Val("kerning", "auto", "default"), Val("class", "k", "fine"), Val("style", "fill:red", "fine"), Val("style", "q", "invalid"), Val("tabindex", "0", "fine"), Val("lang", "en", "fine"),
  Val("role", "img", "fine"), Val("aria-label", "x", "fine"), Val("systemLanguage", "en", "fine"), Val("requiredExtensions", "x", "fine"), Val("requiredFeatures", "x", "fine"), Val("externalResourcesRequired", "true", "fine"),
  Val("target", "_self", "default"), Val("target", "_blank", "fine"), Val("gradientUnits", "objectBoundingBox", "default"), Val("gradientUnits", "userSpaceOnUse", "fine"), Val("gradientUnits", "q", "invalid"), Val("spreadMethod", "pad", "default"), Val("spreadMethod", "reflect", "fine"),
  Val("media", "all", "default"), Val("media", "print", "fine"), Val("pathLength", "3", "fine"), Val("font-size", "3", "fine"), Val("display", "none", "fine"),
  Val("xlink:show", "new", "fine"), Val("xlink:show", "replace", "fine"), Val("xlink:title", "t", "fine"), Val("xlink:type", "simple", "fine"), Val("xlink:actuate", "onLoad", "fine"), Val("xlink:foo", "1", "fine"),
  Val("foo", "1", "fine"), Val("e:a", "1", "fine")}
(* a default or an unreadable value is one only on an element that takes the attribute; two attributes mean different things on different elements *)
Is(e, k, v) == LET hit == {w \in Values : w.k = k /\ w.v = v} IN
  IF hit = {} THEN "fine"
  ELSE LET is == (CHOOSE w \in hit : TRUE).is
       IN IF k = "x" /\ v = "0" /\ e = "tspan" THEN "fine"            \* a list there, with nothing by default
          ELSE IF k = "x" /\ v = "q" /\ e \in {"text", "tspan"} THEN "unsaid"
          ELSE is

(* ---- ids ---- *)
Ids(d) == {d[n].attrs[i].v : <<n, i>> \in {<<n, i>> \in (DOMAIN d) \X (1..8) : i \in DOMAIN d[n].attrs /\ d[n].attrs[i].k = "id"}}
Referred(d) == UNION {{d[n].attrs[i].ref : i \in DOMAIN d[n].attrs} \cup {d[n].css[i].id : i \in DOMAIN d[n].css} : n \in DOMAIN d} \ {""}
(* whether an attribute the element does not take refers to anything is left open *)
Firmly(d) == UNION {{d[n].attrs[i].ref : i \in {j \in DOMAIN d[n].attrs : Known(d, n) /\ Takes(d[n].k, d[n].attrs[j].k)}} \cup {d[n].css[i].id : i \in DOMAIN d[n].css} : n \in DOMAIN d} \ {""}
Scripted(d) == \E n \in DOMAIN d : \/ IsSvg(d, n) /\ d[n].k = "script"
                                   \/ \E i \in DOMAIN d[n].attrs : LET a == d[n].attrs[i] IN a.k = "onclick" \/ (Known(d, n) /\ d[n].k = "a" /\ a.k = "href" /\ a.v = "javascript:f()")

(* ---- the problems ---- *)
P(kind, n, i, names, part) == [kind |-> kind, node |-> n, attr |-> i, names |-> names, part |-> part]
OfElement(d, n) ==
  LET up == d[n].parent IN
  (IF up # 0 /\ IsSvg(d, n) /\ ~Permits(d, up, n) THEN {P("unknown-element", n, 0, <<d[n].k, d[up].k>>, "elem")} ELSE {})
  \cup (IF Known(d, n) /\ d[n].k \in Legacy THEN {P("deprecated-element", n, 0, <<d[n].k>>, "elem")} ELSE {})
XName(e, a) == IF a.k \notin XLinks \/ e \notin OnlyOn(a.k) THEN a.k
  ELSE CASE a.k = "xlink:show" -> a.v [] a.k = "xlink:title" -> "title" [] a.k = "xlink:href" -> "href" [] OTHER -> a.k
OfAttr(d, n, i) ==
  LET a == d[n].attrs[i]
      e == d[n].k
      known == Known(d, n)
      takes == known /\ Takes(e, a.k)
      is == Is(e, a.k, a.v)
  IN IF IsDecl(a) THEN {} ELSE
     (IF known /\ ~takes THEN {P("unknown-attribute", n, i, <<a.k, e>>, "whole")} ELSE {})
     \cup (IF a.k \in Deprecated /\ (takes \/ a.k \in Universal) THEN {P("deprecated-attribute", n, i, <<a.k>>, "name")} ELSE {})
     \cup (IF takes /\ is = "default" THEN {P("default", n, i, <<a.k>>, "value")} ELSE {})
     \cup (IF (takes /\ is \in {"invalid", "tail"}) \/ (a.k = "style" /\ is = "invalid") THEN {P("invalid", n, i, <<a.k>>, IF is = "tail" THEN "tail" ELSE "value")} ELSE {})
     \cup (IF a.p = "xlink" THEN {P("xlink", n, i, <<IF known THEN XName(e, a) ELSE CASE a.k = "xlink:show" -> a.v [] a.k = "xlink:title" -> "title" [] a.k = "xlink:href" -> "href" [] OTHER -> a.k>>, "whole")} ELSE {})
     \cup (IF a.k = "id" /\ ~Scripted(d) /\ a.v \notin Referred(d) THEN {P("unused-id", n, i, <<a.v>>, "value")} ELSE {})
UsedBy(d, n) == {<<n, d[n].p>>} \cup {<<n, d[n].attrs[i].p>> : i \in {j \in DOMAIN d[n].attrs : d[n].attrs[j].p # "" /\ ~IsDecl(d[n].attrs[j])}}
InUse(d) == {InForce(d, u[1], u[2]) : u \in UNION {UsedBy(d, n) : n \in DOMAIN d}}
OfDecl(d, n, i) == LET a == d[n].attrs[i] IN P("unused-xmlns", n, 0, <<Declared(a), a.v>>, "elem")
Decls(d) == {<<n, i>> \in (DOMAIN d) \X (1..8) : i \in DOMAIN d[n].attrs /\ IsDecl(d[n].attrs[i])}
(* an unused declaration that repeats another, or is repeated, around or below it: saying so is left open *)
Repeated(d, n, i) == \E m \in DOMAIN d, j \in 1..8 : m # n /\ (n \in Above(d, m) \/ m \in Above(d, n)) /\ <<m, j>> \in Decls(d) /\ Declared(d[m].attrs[j]) = Declared(d[n].attrs[i]) /\ d[m].attrs[j].v = d[n].attrs[i].v
Found(d) == UNION {OfElement(d, n) \cup UNION {OfAttr(d, n, i) : i \in DOMAIN d[n].attrs} : n \in DOMAIN d}
            \cup {OfDecl(d, x[1], x[2]) : x \in {y \in Decls(d) : y \notin InUse(d) /\ ~Repeated(d, y[1], y[2])}}
Open(d) == {OfDecl(d, x[1], x[2]) : x \in {y \in Decls(d) : y \notin InUse(d) /\ Repeated(d, y[1], y[2])}}
           \cup {P("unused-id", n, i, <<d[n].attrs[i].v>>, "value") : <<n, i>> \in {<<n, i>> \in (DOMAIN d) \X (1..8) : i \in DOMAIN d[n].attrs /\ d[n].attrs[i].k = "id" /\ ~Scripted(d) /\ d[n].attrs[i].v \in Referred(d) \ Firmly(d)}}
           \cup {P("invalid", n, i, <<"x">>, "value") : <<n, i>> \in {<<n, i>> \in (DOMAIN d) \X (1..8) : i \in DOMAIN d[n].attrs /\ Is(d[n].k, d[n].attrs[i].k, d[n].attrs[i].v) = "unsaid"}}
With(ps, rules) == {[kind |-> p.kind, node |-> p.node, attr |-> p.attr, names |-> p.names, part |-> p.part, severity |-> rules[RuleOf(p.kind)]] : p \in {q \in ps : rules[RuleOf(q.kind)] # "off"}}
Problems(d, rules) == With(Found(d), rules)
Allowed(d, rules) == With(Found(d) \cup Open(d), rules)

(* ---- the command ---- *)
Fails(level, errors, warnings) == CASE level = "off" -> FALSE [] level = "warn" -> errors + warnings > 0 [] OTHER -> errors > 0

(* laws *)
ASSUME \A e \in Elements : Kids(e) \subseteq Elements
ASSUME \A v \in Values : v.k \in Everywhere \cup Named \cup {"foo", "e:a", "xlink:foo"}
ASSUME \A v, w \in Values : (v.k = w.k /\ v.v = w.v) => v = w
ASSUME Everywhere \cap Named = {}
=============================================================================
