-------------------------------- MODULE Jsx --------------------------------
(* The component a document becomes under a set of options.
   A document is a sequence of nodes [t, k, p, parent, attrs, s]: t is "el", "text", "note" (a comment) or "pi"; k the name as written,
   p its prefix; s the text.  An attribute is [k, p, v, decls]: decls the declarations of a style attribute. Numbers are written in one way.
   The component's tree is made of nodes [name, attrs, text, kids]: a text has no name; "?" names a child depending on a property, "!" one
   that is a property's value.  A value starting with "=>" is an expression, not a string. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* attributes by the name JSX gives them *)
Renamed == [class |-> "className", viewBox |-> "viewBox"] @@
  ("stroke-width" :> "strokeWidth") @@ ("stroke-linecap" :> "strokeLinecap") @@ ("stroke-linejoin" :> "strokeLinejoin") @@ ("stroke-miterlimit" :> "strokeMiterlimit") @@
  ("stroke-dasharray" :> "strokeDasharray") @@ ("stroke-dashoffset" :> "strokeDashoffset") @@ ("stroke-opacity" :> "strokeOpacity") @@ ("fill-opacity" :> "fillOpacity") @@
  ("fill-rule" :> "fillRule") @@ ("clip-rule" :> "clipRule") @@ ("clip-path" :> "clipPath") @@ ("marker-start" :> "markerStart") @@ ("marker-mid" :> "markerMid") @@ ("marker-end" :> "markerEnd") @@
  ("color-interpolation" :> "colorInterpolation") @@ ("color-interpolation-filters" :> "colorInterpolationFilters") @@ ("shape-rendering" :> "shapeRendering") @@ ("text-rendering" :> "textRendering") @@
  ("image-rendering" :> "imageRendering") @@ ("pointer-events" :> "pointerEvents") @@ ("vector-effect" :> "vectorEffect") @@ ("paint-order" :> "paintOrder") @@ ("text-anchor" :> "textAnchor") @@
  ("font-size" :> "fontSize") @@ ("font-family" :> "fontFamily") @@ ("font-weight" :> "fontWeight") @@ ("font-style" :> "fontStyle") @@ ("letter-spacing" :> "letterSpacing") @@ ("word-spacing" :> "wordSpacing") @@
  ("dominant-baseline" :> "dominantBaseline") @@ ("alignment-baseline" :> "alignmentBaseline") @@ ("baseline-shift" :> "baselineShift") @@ ("writing-mode" :> "writingMode") @@
  ("stop-color" :> "stopColor") @@ ("stop-opacity" :> "stopOpacity") @@ ("flood-color" :> "floodColor") @@ ("flood-opacity" :> "floodOpacity") @@ ("lighting-color" :> "lightingColor") @@
  ("unicode-bidi" :> "unicodeBidi") @@ ("text-decoration" :> "textDecoration") @@ ("enable-background" :> "enableBackground") @@
  ("tabindex" :> "tabIndex") @@ ("hreflang" :> "hrefLang") @@ ("referrerpolicy" :> "referrerPolicy") @@ ("crossorigin" :> "crossOrigin") @@
  ("xlink:href" :> "xlinkHref") @@ ("xlink:title" :> "xlinkTitle") @@ ("xlink:show" :> "xlinkShow") @@ ("xlink:type" :> "xlinkType") @@ ("xlink:actuate" :> "xlinkActuate") @@ ("xlink:role" :> "xlinkRole") @@ ("xlink:arcrole" :> "xlinkArcrole") @@
  ("xml:space" :> "xmlSpace") @@ ("xml:lang" :> "xmlLang") @@ ("xml:base" :> "xmlBase") @@ ("xmlns:xlink" :> "xmlnsXlink")
(* without a name there *)
Nameless == {"foo-bar", "e:a", "xmlns:e"}
JsxName(k) == IF k \in DOMAIN Renamed THEN Renamed[k] ELSE k
StyleName == ("fill" :> "fill") @@ ("stroke-linecap" :> "strokeLinecap") @@ ("--x-y" :> "--x-y") @@ ("-webkit-filter" :> "WebkitFilter") @@ ("filter" :> "filter") @@ ("font-family" :> "fontFamily") @@ ("opacity" :> "opacity") @@ ("fill-rule" :> "fillRule") @@ ("-webkit-user-select" :> "WebkitUserSelect")

Native == ("svg" :> "Svg") @@ ("circle" :> "Circle") @@ ("clipPath" :> "ClipPath") @@ ("ellipse" :> "Ellipse") @@ ("g" :> "G") @@ ("linearGradient" :> "LinearGradient") @@ ("radialGradient" :> "RadialGradient") @@
  ("line" :> "Line") @@ ("path" :> "Path") @@ ("pattern" :> "Pattern") @@ ("polygon" :> "Polygon") @@ ("polyline" :> "Polyline") @@ ("rect" :> "Rect") @@ ("symbol" :> "Symbol") @@ ("text" :> "Text") @@ ("textPath" :> "TextPath") @@
  ("tspan" :> "TSpan") @@ ("use" :> "Use") @@ ("defs" :> "Defs") @@ ("stop" :> "Stop") @@ ("mask" :> "Mask") @@ ("image" :> "Image") @@ ("foreignObject" :> "ForeignObject")

(* props and replace hold <<name, as given, meaning>>.  options: [native, dims, icon, expand, ref, memo, title, desc, props, replace, named, alias, runtime] *)
Plain == [native |-> FALSE, dims |-> TRUE, icon |-> "", expand |-> "end", ref |-> FALSE, memo |-> FALSE, title |-> FALSE, desc |-> FALSE, props |-> {}, replace |-> {}, named |-> FALSE, alias |-> "", runtime |-> "classic"]

At(n, v) == [n |-> n, v |-> v, decls |-> {}]
AttrOf(a) == [n |-> JsxName(a.k), v |-> a.v, decls |-> {<<StyleName[a.decls[j][1]], a.decls[j][2]>> : j \in DOMAIN a.decls}]
OwnAttrs(d, n) == {AttrOf(d[n].attrs[j]) : j \in {i \in DOMAIN d[n].attrs : d[n].attrs[i].k \notin Nameless /\ ~(d[n].attrs[i].k = "xmlns" /\ d[n].k = "svg")}}
Put(as, n, v) == {a \in as : a.n # n} \cup {At(n, v)}
RECURSIVE PutAll(_, _)
PutAll(as, ps) == IF ps = {} THEN as ELSE LET x == CHOOSE y \in ps : TRUE IN PutAll(Put(as, x[1], x[3]), ps \ {x})
IconSize(o) == IF o.icon = "true" THEN (IF o.native THEN "24" ELSE "1em") ELSE o.icon
RootAttrs(as, o) ==
  LET a1 == PutAll(as, o.props)
      a2 == IF o.ref THEN Put(a1, "ref", "=>ref") ELSE a1
      a3 == IF o.title THEN Put(a2, "aria-labelledby", "=>titleId") ELSE a2
      a4 == IF o.desc THEN Put(a3, "aria-describedby", "=>descId") ELSE a3
      a5 == IF o.dims THEN a4 ELSE {a \in a4 : a.n \notin {"width", "height"}}
  IN IF o.icon = "" THEN a5 ELSE Put(Put(a5, "width", IconSize(o)), "height", IconSize(o))
Swap(as, o) == {LET hit == {r \in o.replace : r[1] = a.v} IN IF hit = {} THEN a ELSE [a EXCEPT !.v = (CHOOSE r \in hit : TRUE)[3]] : a \in as}

Name(k, o) == IF o.native THEN Native[k] ELSE k
Shown(d, n, o) == d[n].t = "el" /\ d[n].p = "" /\ (o.native => d[n].k \in DOMAIN Native)
Breaks == {"\n  ", "\n"}            \* space around elements, with nothing in it but the layout of the file
Text(s) == [name |-> "", attrs |-> {}, text |-> s, kids |-> <<>>]
El(name, as, kids) == [name |-> name, attrs |-> as, text |-> "", kids |-> kids]
(* neighbouring texts are one text *)
RECURSIVE Joined(_)
Joined(s) == IF Len(s) < 2 THEN s
  ELSE IF s[1].name = "" /\ s[2].name = "" THEN Joined(<<Text(s[1].text \o s[2].text)>> \o SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Joined(SubSeq(s, 2, Len(s)))
KidsOf(d, n) == SelectSeq([j \in 1..Len(d) |-> j], LAMBDA j : d[j].parent = n)

(* a title or description that a property may take the place of *)
Which(k) == IF k = "title" THEN [test |-> "title", id |-> "titleId"] ELSE [test |-> "desc", id |-> "descId"]
Taken(k, name, id) == El(name, {At("id", id)}, <<[name |-> "!", attrs |-> {}, text |-> Which(k).test, kids |-> <<>>]>>)
IdOf(as) == {a.v : a \in {b \in as : b.n = "id"}}
Depends(k, node) ==        \* node: what stands there now
  LET ids == IdOf(node.attrs)
      id == IF ids = {} THEN "=>" \o Which(k).id ELSE "=>" \o Which(k).id \o "||" \o (CHOOSE x \in ids : TRUE)
      was == IF ids = {} THEN node ELSE [node EXCEPT !.attrs = Put(@, "id", id)]
  IN [name |-> "?", attrs |-> {At("unless", Which(k).test)}, text |-> "", kids |-> <<was, Taken(k, node.name, id)>>]
Offered(k, o) == [name |-> "?", attrs |-> {At("when", Which(k).test)}, text |-> "", kids |-> <<Taken(k, IF o.native THEN (IF k = "title" THEN "Title" ELSE "Desc") ELSE k, "=>" \o Which(k).id)>>]
FirstOf(kids, k) == LET at == {j \in DOMAIN kids : kids[j].name = k} IN IF at = {} THEN 0 ELSE CHOOSE j \in at : \A i \in at : j <= i
WithChoice(kids, k, o) == LET j == FirstOf(kids, k) IN
  IF j = 0 THEN <<Offered(k, o)>> \o kids ELSE [kids EXCEPT ![j] = Depends(k, kids[j])]

RECURSIVE Node(_, _, _)
RECURSIVE Nodes(_, _, _)
Nodes(d, ns, o) == IF ns = <<>> THEN <<>> ELSE
  LET n == Head(ns)
      here == CASE d[n].t = "text" /\ d[n].s \notin Breaks -> <<Text(d[n].s)>>
                [] Shown(d, n, o) -> <<Node(d, n, o)>>
                [] OTHER -> <<>>
  IN here \o Nodes(d, Tail(ns), o)
Node(d, n, o) ==
  LET kids == Joined(Nodes(d, KidsOf(d, n), o))
      as == Swap(IF n = 1 THEN RootAttrs(OwnAttrs(d, n), o) ELSE OwnAttrs(d, n), o)
      k1 == IF n = 1 /\ o.desc THEN WithChoice(kids, "desc", o) ELSE kids
      k2 == IF n = 1 /\ o.title THEN WithChoice(k1, "title", o) ELSE k1
  IN El(Name(d[n].k, o), as, k2)

(* around the tree *)
Given(o) == (IF o.title THEN {"title", "titleId"} ELSE {}) \cup (IF o.desc THEN {"desc", "descId"} ELSE {})
Wrapped(o) == (IF o.ref THEN <<"forwardRef">> ELSE <<>>) \o (IF o.memo THEN <<"memo">> ELSE <<>>)
RECURSIVE NamesOf(_)
NamesOf(t) == (IF t.name \in {"", "?", "!"} THEN {} ELSE {t.name}) \cup UNION {NamesOf(t.kids[j]) : j \in DOMAIN t.kids}
Component(d, o) == [tree |-> Node(d, 1, o), given |-> Given(o), rest |-> o.expand # "none", spread |-> o.expand, ref |-> o.ref, wrapped |-> Wrapped(o), named |-> o.named, alias |-> IF o.named THEN o.alias ELSE ""]
(* what has to be imported for it to work *)
Needs(d, o) == {Wrapped(o)[j] : j \in DOMAIN Wrapped(o)} \cup (IF o.native THEN NamesOf(Node(d, 1, o)) ELSE {}) \cup (IF o.runtime = "classic" THEN {"React"} ELSE IF o.runtime = "classic-preact" THEN {"h"} ELSE {})

ASSUME \A k \in DOMAIN Renamed, l \in DOMAIN Renamed : Renamed[k] = Renamed[l] => k = l       \* no two attributes under one name
ASSUME \A k \in DOMAIN StyleName, l \in DOMAIN StyleName : StyleName[k] = StyleName[l] => k = l
=============================================================================
