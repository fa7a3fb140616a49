------------------------------- MODULE Exact --------------------------------
(* What each targeted removal, addition or sorting job turns a document into.   *)
(* Documents are read by qualified names: d.nodes, 1 is the document; attributes *)
(* are records n (as written), v, px, l (its two parts), part (up to a hyphen),  *)
(* rk (alphabetical rank).                                                       *)
EXTENDS Css

SVG == "http://www.w3.org/2000/svg"
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
In(x, s) == \E i \in DOMAIN s : s[i] = x
Vals(s) == {s[i] : i \in DOMAIN s}

\* the namespace a prefix stands for at an element
RECURSIVE Uri(_, _, _)
Uri(d, e, px) ==
  IF e <= 1 THEN ""
  ELSE LET c == SelectSeq(d.nodes[e].at, LAMBDA a : IF px = "" THEN a.n = "xmlns" ELSE a.px = "xmlns" /\ a.l = px)
       IN IF c # <<>> THEN c[1].v ELSE Uri(d, d.nodes[e].par, px)
ElUri(d, e) == Uri(d, e, d.nodes[e].px)
Is(d, e, names) == d.nodes[e].k = "e" /\ d.nodes[e].l \in names /\ ElUri(d, e) = SVG

Has(d, e, name) == name \in DOMAIN d.nodes[e].raw
Val(d, e, name) == d.nodes[e].raw[name]
IsDecl(a) == a.n = "xmlns" \/ a.px = "xmlns"

Editors == {"http://www.inkscape.org/namespaces/inkscape", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd", "http://www.bohemiancoding.com/sketch/ns",
            "http://ns.adobe.com/AdobeIllustrator/10.0/", "http://creativecommons.org/ns#", "http://purl.org/dc/elements/1.1/", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.figma.com/figma/ns"}
EventNames == {"onclick", "onload", "onmouseover", "onbegin", "onfocusin"}
Conditional == {"requiredFeatures", "requiredExtensions", "systemLanguage"}
Containers == {"a", "defs", "g", "glyph", "marker", "mask", "missing-glyph", "pattern", "switch", "symbol", "metadata"}
Raster(v) == \E x \in {"png", "jpg", "jpeg", "gif"} : Ends(v, "." \o x) \/ Starts(v, "data:image/" \o x \o ";")

\* lengths with a size in pixels
Px == [x \in {"10", "20", "30"} |-> x] @@ ("20px" :> "20") @@ ("1in" :> "96") @@ ("10.5" :> "10.5")
Sized(d, e) == Has(d, e, "width") /\ Has(d, e, "height") /\ Val(d, e, "width") \in DOMAIN Px /\ Val(d, e, "height") \in DOMAIN Px
Box(d, e) == "0 0 " \o Px[Val(d, e, "width")] \o " " \o Px[Val(d, e, "height")]
Root(d, e) == d.nodes[e].par = 1

Filtered(d, e) == Has(d, e, "filter") \/ \E i \in DOMAIN d.nodes[e].inl : d.nodes[e].inl[i].p = "filter"

\* the node goes away, with all it contains
Gone(d, e, j) ==
  LET n == d.nodes[e] IN
  CASE j.job = "removeComments" -> n.k = "c" /\ ~\E p \in DOMAIN j.keep : Starts(n.t, j.keep[p])
    [] j.job = "removeDoctype" -> n.k = "y"
    [] j.job = "removeXMLProcInst" -> n.k = "p" /\ n.n = "xml"
    [] j.job = "removeMetadata" -> Is(d, e, {"metadata"})
    [] j.job = "removeTitle" -> Is(d, e, {"title"})
    [] j.job = "removeDesc" -> Is(d, e, {"desc"}) /\ (j.any \/ n.kids = <<>> \/ \E i \in DOMAIN n.kids : LET k == d.nodes[n.kids[i]] IN
                                   k.k = "t" /\ (Starts(k.t, "Created with") \/ Starts(k.t, "Created using")))
    [] j.job = "removeScripts" -> Is(d, e, {"script"})
    [] j.job = "removeStyleElement" -> Is(d, e, {"style"})
    [] j.job = "removeRasterImages" -> Is(d, e, {"image"}) /\ Has(d, e, "xlink:href") /\ Raster(Val(d, e, "xlink:href"))
    [] j.job = "removeElementsByAttr" -> n.k = "e" /\ (In(n.id, j.id) \/ \E i \in DOMAIN n.cls : In(n.cls[i], j.class))
    [] j.job = "removeEmptyText" -> \/ Is(d, e, {"text"}) /\ n.kids = <<>> /\ j.text
                                    \/ Is(d, e, {"tspan"}) /\ n.kids = <<>> /\ j.tspan
                                    \/ Is(d, e, {"tref"}) /\ ~Has(d, e, "xlink:href") /\ j.tref
    [] j.job = "removeEditorsNSData" -> n.k = "e" /\ ElUri(d, e) \in Editors \cup Vals(j.more)
    [] OTHER -> FALSE

\* one attribute goes away
Matching(p, x) == p = <<>> \/ In(x, p)
\* a declaration is in use while a prefixed name belongs to its namespace
Used(d, uri) == \E e \in DOMAIN d.nodes : d.nodes[e].k = "e" /\
                  \/ d.nodes[e].px # "" /\ ElUri(d, e) = uri
                  \/ \E i \in DOMAIN d.nodes[e].at : d.nodes[e].at[i].px \notin {"", "xmlns", "xml"} /\ Uri(d, e, d.nodes[e].at[i].px) = uri
Dropped(d, e, a, j) ==
  CASE j.job = "removeScripts" -> a.n \in EventNames
    [] j.job = "removeDimensions" -> Is(d, e, {"svg"}) /\ a.n \in {"width", "height"} /\ (Has(d, e, "viewBox") \/ Sized(d, e))
    [] j.job = "removeViewBox" -> a.n = "viewBox" /\ (Is(d, e, {"pattern", "symbol"}) \/ (Is(d, e, {"svg"}) /\ Root(d, e))) /\ Sized(d, e) /\ a.v = Box(d, e)
    [] j.job = "removeXMLNS" -> Is(d, e, {"svg"}) /\ a.n = "xmlns"
    [] j.job = "removeEditorsNSData" -> IF IsDecl(a) THEN a.px = "xmlns" /\ a.v \in Editors \cup Vals(j.more)
                                        ELSE a.px # "" /\ Uri(d, e, a.px) \in Editors \cup Vals(j.more)
    [] j.job = "removeAttrs" -> /\ \E i \in DOMAIN j.pats : LET p == j.pats[i] IN
                                     Matching(p.el, d.nodes[e].n) /\ Matching(p.at, a.n) /\ Matching(p.val, a.v)
                                /\ ~(j.current /\ a.n \in {"fill", "stroke"} /\ a.v = "currentColor")
    [] j.job = "removeAttributesBySelector" -> \E i \in DOMAIN j.items : In(a.n, j.items[i].attrs) /\ \E s \in DOMAIN j.items[i].sels : Matches(d, {}, e, j.items[i].sels[s])
    [] j.job = "removeEmptyAttrs" -> a.v = "" /\ a.n \notin Conditional
    [] j.job = "removeUnusedNS" -> Is(d, e, {"svg"}) /\ Root(d, e) /\ a.px = "xmlns" /\ ~Used(d, a.v)
    [] OTHER -> FALSE

\* sorting: declarations first when asked to, prefixed names next, then by the list, then by name
Prio(a, front) == IF front /\ a.n = "xmlns" THEN 0 ELSE IF front /\ a.px = "xmlns" THEN 1 ELSE IF a.px # "" THEN 2 ELSE 3
Place(a, order) == IF In(a.part, order) THEN CHOOSE i \in DOMAIN order : order[i] = a.part ELSE Len(order) + 1
Before(a, b, j) ==
  IF Prio(a, j.front) # Prio(b, j.front) THEN Prio(a, j.front) < Prio(b, j.front)
  ELSE IF Place(a, j.order) # Place(b, j.order) THEN Place(a, j.order) < Place(b, j.order)
  ELSE a.rk < b.rk
Sort(at, j) == [i \in DOMAIN at |-> at[CHOOSE k \in DOMAIN at : Cardinality({m \in DOMAIN at : Before(at[m], at[k], j)}) = i - 1]]

Words(ws) == FoldLeft(LAMBDA acc, w : IF acc = "" THEN w ELSE acc \o " " \o w, "", ws)
NewClass(cls, more) == FoldLeft(LAMBDA acc, w : IF In(w, acc) THEN acc ELSE Append(acc, w), cls, more)
\* attributes of an element afterwards: name and value
Attrs(d, e, j) ==
  LET pair(a) == <<a.n, a.v>>
      kept == SelectSeq(d.nodes[e].at, LAMBDA a : ~Dropped(d, e, a, j))
      plain == [i \in DOMAIN kept |-> pair(kept[i])]
      top == Is(d, e, {"svg"}) /\ Root(d, e)
  IN CASE j.job = "removeDimensions" /\ Is(d, e, {"svg"}) /\ ~Has(d, e, "viewBox") /\ Sized(d, e) -> Append(plain, <<"viewBox", Box(d, e)>>)
       [] j.job = "sortAttrs" -> LET s == Sort(kept, j) IN [i \in DOMAIN s |-> pair(s[i])]
       [] j.job = "addAttributesToSVGElement" /\ top -> plain \o SelectSeq(j.attrs, LAMBDA a : ~Has(d, e, a[1]))
       [] j.job = "addClassesToSVGElement" /\ top ->
            SelectSeq(plain, LAMBDA a : a[1] # "class") \o <<<<"class", Words(NewClass(d.nodes[e].cls, j.classes))>>>>
       [] OTHER -> plain

\* children of defs: more frequent names first, longer names first, later names first
Freq(d, row, e) == Cardinality({i \in DOMAIN row : d.nodes[row[i]].n = d.nodes[e].n})
DefBefore(d, row, i, k) ==
  LET a == row[i]  b == row[k]
      x == d.nodes[a]  y == d.nodes[b] IN
  IF Freq(d, row, a) # Freq(d, row, b) THEN Freq(d, row, a) > Freq(d, row, b)
  ELSE IF Len(x.n) # Len(y.n) THEN Len(x.n) > Len(y.n)
  ELSE IF x.rk # y.rk THEN x.rk > y.rk
  ELSE i < k
Kids(d, e, j) ==
  LET row == d.nodes[e].kids IN
  IF j.job = "sortDefsChildren" /\ Is(d, e, {"defs"}) /\ \A i \in DOMAIN row : d.nodes[row[i]].k = "e"
  THEN [i \in DOMAIN row |-> row[CHOOSE k \in DOMAIN row : Cardinality({m \in DOMAIN row : DefBefore(d, row, m, k)}) = i - 1]]
  ELSE row

ScriptLink(d, e) == Is(d, e, {"a"}) /\ \E h \in {"href", "xlink:href"} : Has(d, e, h) /\ Starts(Val(d, e, h), "javascript:")
Hollow(d, e, kids) ==
  /\ kids = <<>>
  /\ Is(d, e, Containers)
  /\ ~(Is(d, e, {"pattern"}) /\ d.nodes[e].at # <<>>)
  /\ ~(Is(d, e, {"mask"}) /\ Has(d, e, "id"))
  /\ ~(~Is(d, e, {"pattern", "mask"}) /\ Is(d, d.nodes[e].par, {"switch"}))
  /\ ~(Is(d, e, {"g"}) /\ Filtered(d, e))

\* what a node becomes: a sequence of trees
RECURSIVE Out(_, _, _)
Out(d, e, j) ==
  LET n == d.nodes[e]
      row == Kids(d, e, j)
      kids == FoldLeft(LAMBDA acc, k : acc \o Out(d, k, j), <<>>, row)
  IN IF Gone(d, e, j) THEN <<>>
     ELSE IF n.k # "e" THEN <<[k |-> n.k, n |-> n.n, t |-> n.t, at |-> <<>>, kids |-> kids]>>
     ELSE IF j.job = "removeScripts" /\ ScriptLink(d, e) THEN SelectSeq(kids, LAMBDA x : x.k # "t")
     ELSE IF j.job = "removeEmptyContainers" /\ Hollow(d, e, kids) THEN <<>>
     ELSE <<[k |-> "e", n |-> n.n, t |-> "", at |-> Attrs(d, e, j), kids |-> kids]>>

\* attributes a job adds may stand anywhere among the others
RECURSIVE Settle(_, _)
Settle(t, free) ==
  [t EXCEPT !.at = SelectSeq(t.at, LAMBDA a : ~In(a[1], free)) \o
                   FoldLeft(LAMBDA acc, f : acc \o SelectSeq(t.at, LAMBDA a : a[1] = f), <<>>, free),
            !.kids = [i \in DOMAIN t.kids |-> Settle(t.kids[i], free)]]
Nothing == [job |-> "none"]
Expected(d, j) == Settle(Out(d, 1, j)[1], j.free)
Actual(d, j) == Settle(Out(d, 1, Nothing)[1], j.free)
=============================================================================
