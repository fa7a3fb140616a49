------------------------------- MODULE Render -------------------------------
(* What a document paints: a normal form of the picture that two documents     *)
(* share exactly when they are bound to look the same.                         *)
(*                                                                             *)
(* A picture is a sequence of items.  A leaf is a painted shape: its outline in *)
(* canvas coordinates and everything that decides its paint.  A scope is a      *)
(* group effect (opacity, clip, mask, filter, blend, viewport, link) over       *)
(* items.  Names never appear: a reference is replaced by what it refers to.    *)
EXTENDS Css, Geom

None == S("none")
Shapes == {"path", "rect", "circle", "ellipse", "line", "polyline", "polygon"}
Groups == {"g", "a", "svg", "switch"}
Fuel == 5

ById(d, id) == {e \in 1..Len(d.nodes) : d.nodes[e].k = "e" /\ d.nodes[e].id = id /\ id # ""}
FirstOf(es) == CHOOSE e \in es : \A f \in es : e <= f

\* attributes that say nothing because they repeat the default
RestDefaults == {<<"x", "0">>, <<"y", "0">>, <<"version", "1.1">>, <<"version", "1.0">>, <<"version", "1">>, <<"xml:space", "default">>, <<"preserveAspectRatio", "xMidYMid meet">>,
                 <<"gradientUnits", "objectBoundingBox">>, <<"spreadMethod", "pad">>, <<"clipPathUnits", "userSpaceOnUse">>,
                 <<"maskUnits", "objectBoundingBox">>, <<"maskContentUnits", "userSpaceOnUse">>, <<"patternUnits", "objectBoundingBox">>,
                 <<"patternContentUnits", "userSpaceOnUse">>, <<"filterUnits", "objectBoundingBox">>, <<"primitiveUnits", "userSpaceOnUse">>,
                 <<"markerUnits", "strokeWidth">>, <<"orient", "0">>, <<"zoomAndPan", "magnify">>, <<"baseProfile", "none">>,
                 <<"contentScriptType", "application/ecmascript">>, <<"contentStyleType", "text/css">>,
                 <<"xlink:type", "simple">>, <<"xlink:actuate", "onLoad">>, <<"xlink:show", "replace">>}
DefaultsFor(n) ==
  CASE n = "svg" -> {<<"width", "100%">>, <<"height", "100%">>}
    [] n = "linearGradient" -> {<<"x1", "0">>, <<"y1", "0">>, <<"x1", "0%">>, <<"y1", "0%">>, <<"x2", "100%">>, <<"x2", "1">>, <<"y2", "0">>, <<"y2", "0%">>}
    [] n = "radialGradient" -> {<<"cx", "50%">>, <<"cy", "50%">>, <<"r", "50%">>}
    [] n = "marker" -> {<<"refX", "0">>, <<"refY", "0">>, <<"markerWidth", "3">>, <<"markerHeight", "3">>}
    [] n \in {"mask", "filter"} -> {<<"x", "-10%">>, <<"y", "-10%">>, <<"width", "120%">>, <<"height", "120%">>}
    [] n \in {"pattern", "use", "image"} -> {<<"width", "0">>, <<"height", "0">>}
    [] n = "stop" -> {<<"offset", "0">>, <<"offset", "0%">>}
    [] OTHER -> {}
\* attributes that never paint
Silent(a) == \/ a \in {"role", "tabindex", "lang", "xml:lang", "onclick", "onload", "focusable", "xml:space", "requiredFeatures"}
             \/ Len(a) > 5 /\ SubSeq(a, 1, 5) \in {"data-", "aria-"}
             \/ Len(a) > 1 /\ SubSeq(a, 1, 1) = "{"
Rest(n) == LET keep == {a \in DOMAIN n.rest : ~Silent(a) /\ <<a, n.rest[a]>> \notin RestDefaults \cup DefaultsFor(n.n)}
           IN [a \in keep |-> n.rest[a]]

(* The whole of what rendering needs, worked out once per document and         *)
(* environment: declared values of every element, and the computed values of   *)
(* every element in its own place.                                             *)
Prepare(d, env) ==
  LET decl == [e \in 1..Len(d.nodes) |-> IF d.nodes[e].k = "e" THEN Cascaded(d, env, e) ELSE <<>>]
      base == FoldLeft(LAMBDA acc, e : Append(acc, IF d.nodes[e].k = "e"
                                                   THEN Computed(decl[e], IF d.nodes[e].par = 0 THEN <<>> ELSE acc[d.nodes[e].par])
                                                   ELSE <<>>),
                       <<>>, [i \in 1..Len(d.nodes) |-> i])
  IN [d |-> d, decl |-> decl, base |-> base]

Up(p, e) == LET q == p.d.nodes[e].par IN IF q = 0 THEN <<>> ELSE p.base[q]

Spacing(s, st) == s

RECURSIVE Items(_, _, _, _, _, _)
RECURSIVE Digest(_, _, _)

\* what a url(#id) stands for
RefOf(p, v, fuel) == IF v[1] # "u" THEN <<v>> ELSE <<S("url"), Digest(p, v[2], fuel)>>

KidItems(p, e, up, m, mode, fuel) ==
  FoldLeft(LAMBDA acc, k : acc \o Items(p, k, up, m, mode, fuel), <<>>, p.d.nodes[e].kids)

RECURSIVE RawTree(_, _, _)
RawTree(p, e, fuel) ==
  LET n == p.d.nodes[e]
      own == [q \in DOMAIN p.base[e] \cap {"flood-color", "flood-opacity", "lighting-color", "color-interpolation-filters", "stop-color", "stop-opacity"} |-> p.base[e][q]]
  IN [n |-> n.n, rest |-> Rest(n), st |-> own, m |-> MapOfList(n.tf),
      up |-> IF n.href = "" \/ fuel = 0 THEN <<>> ELSE <<Digest(p, n.href, fuel - 1)>>,
      kids |-> FoldLeft(LAMBDA acc, k : IF p.d.nodes[k].k = "e" /\ p.d.nodes[k].n \notin {"title", "desc", "metadata"}
                                        THEN Append(acc, RawTree(p, k, fuel)) ELSE acc, <<>>, n.kids),
      items |-> <<>>]

Missing == [n |-> "missing", rest |-> <<>>, st |-> <<>>, m |-> Identity, up |-> <<>>, kids |-> <<>>, items |-> <<>>]
Digest(p, id, fuel) ==
  LET es == ById(p.d, id) IN
  IF es = {} \/ fuel = 0 THEN Missing
  ELSE LET e == FirstOf(es)
           n == p.d.nodes[e]
       IN IF n.n \in {"clipPath", "mask", "pattern", "marker", "symbol"}
          THEN [n |-> n.n, rest |-> Rest(n),
                st |-> [q \in DOMAIN p.base[e] \cap {"clip-path", "mask", "overflow"} |-> RefOf(p, p.base[e][q], fuel - 1)],
                m |-> MapOfList(n.tf),
                up |-> IF n.href = "" THEN <<>> ELSE <<Digest(p, n.href, fuel - 1)>>,
                kids |-> <<>>,
                items |-> KidItems(p, e, p.base[e], Identity, IF n.n = "clipPath" THEN "clip" ELSE "paint", fuel - 1)]
          ELSE RawTree(p, e, fuel - 1)

Alpha(c) == SubSeq(c, 7, 8)
Invisible(v) == v = None \/ (v[1] = "c" /\ Alpha(v[2]) = "00")
\* a paint: none, a colour, or what a reference stands for (with the fallback when it is missing)
PaintOf(p, st, prop, fuel) ==
  LET v == Get(st, prop)
      col(x) == IF x = S("currentcolor") THEN Get(st, "color") ELSE x
  IN IF v[1] = "u"
     THEN LET dg == Digest(p, v[2], fuel) IN
          IF dg = Missing THEN <<col(v[3])>> ELSE <<S("url"), dg>>
     ELSE <<col(v)>>
Painted(st, prop, opac, pt) == ~(Len(pt) = 1 /\ Invisible(pt[1])) /\ Get(st, opac) # N(0)

Scaled(m, v) == IF v[1] = "n" THEN N(RDiv(v[2] * (ScaleOf(m) \div 10), Unit \div 10)) ELSE v
ScaledList(m, v) == IF v[1] = "l" THEN <<"l", [i \in DOMAIN v[2] |-> RDiv(v[2][i] * (ScaleOf(m) \div 10), Unit \div 10)]>> ELSE v

FontProps == {"font-family", "font-weight", "font-style", "font-variant", "font-size", "font-stretch", "text-anchor", "dominant-baseline",
              "alignment-baseline", "baseline-shift", "text-decoration", "unicode-bidi", "writing-mode", "letter-spacing", "word-spacing",
              "direction", "text-rendering"}
Pick(st, ps) == [q \in DOMAIN st \cap ps |-> st[q]]

\* the box of a round pen under an axis-aligned map
PenOf(m, w) == <<RDiv(w * ((Abs(m[1]) + Abs(m[3])) \div 10), Unit \div 10), RDiv(w * ((Abs(m[2]) + Abs(m[4])) \div 10), Unit \div 10)>>
NoStroke == [p |-> <<None>>, o |-> N(0), w |-> N(0), cap |-> "", join |-> "", lim |-> N(0), dash |-> <<"l", <<>>>>, off |-> N(0)]

\* the leaf of a shape, text or image; <<>> when it paints nothing
Leaf(p, e, st, m, mode, fuel) ==
  LET n == p.d.nodes[e]
      isShape == n.n \in Shapes
      fp == PaintOf(p, st, "fill", fuel)
      sp == PaintOf(p, st, "stroke", fuel)
      sw == Get(st, "stroke-width")
      outline == ShapeOutline(n.geo)
      \* an outline that encloses nothing has no fill to show
      area == ~isShape \/ n.geo.t = "raw" \/ NormalOutline(outline, "fill", FALSE) # <<>>
      hasFill == area /\ Painted(st, "fill", "fill-opacity", fp)
      hasStroke == Painted(st, "stroke", "stroke-opacity", sp) /\ sw # N(0)
      \* a marker that draws nothing, or is missing, is no marker
      mk(q) == IF ~isShape \/ Get(st, q) = None THEN <<None>>
               ELSE LET r == RefOf(p, Get(st, q), fuel) IN IF Len(r) = 2 /\ r[2].n \in {"marker", "missing"} /\ r[2].items = <<>> THEN <<None>> ELSE r
      marks == <<mk("marker-start"), mk("marker-mid"), mk("marker-end")>>
      hasMarks == marks # <<<<None>>, <<None>>, <<None>>>>
      cap == Get(st, "stroke-linecap")[2]
      join == Get(st, "stroke-linejoin")[2]
      dash == Get(st, "stroke-dasharray")
      fixed == Get(st, "vector-effect") = S("non-scaling-stroke")
      level == IF mode = "clip" THEN "fill" ELSE IF hasMarks THEN IF marks[2] = <<None>> THEN "ends" ELSE "nodes" ELSE IF hasStroke THEN "stroke" ELSE "fill"
      exact == Exact(outline, m) /\ n.geo.t # "raw"
      \* paint servers, markers and strokes under uneven maps depend on the map itself
      needMap == \/ ~exact \/ ~isShape
                 \/ mode # "clip" /\ (\/ (hasFill /\ Len(fp) > 1) \/ (hasStroke /\ Len(sp) > 1) \/ hasMarks
                                      \/ (hasStroke /\ ~AxisAligned(m) /\ ~Similarity(m) /\ ~fixed)
                                      \/ (hasStroke /\ sw[1] # "n"))
      g == NormalOutline(IF exact THEN MapOutline(m, outline) ELSE outline, level, hasStroke /\ cap # "butt")
      stroke == IF ~hasStroke THEN NoStroke
                ELSE LET sm == IF needMap \/ fixed THEN Identity ELSE m IN
                     IF ~Similarity(sm)
                     \* an uneven pen: its width and height, and dashes relative to the width before the map
                     THEN [p |-> sp, o |-> Get(st, "stroke-opacity"), w |-> <<"l", PenOf(sm, sw[2])>>, cap |-> cap, join |-> join,
                           lim |-> IF join = "miter" THEN Get(st, "stroke-miterlimit") ELSE N(0),
                           dash |-> IF dash[1] = "l" THEN <<"l", [i \in DOMAIN dash[2] |-> RDiv(dash[2][i] * 100, sw[2])]>> ELSE dash,
                           off |-> IF dash = <<"l", <<>>>> THEN N(0)
                                   ELSE LET o == Get(st, "stroke-dashoffset") IN IF o[1] = "n" THEN N(RDiv(o[2] * 100, sw[2])) ELSE o]
                     ELSE
                     [p |-> sp, o |-> Get(st, "stroke-opacity"), w |-> Scaled(sm, sw), cap |-> cap, join |-> join,
                      lim |-> IF join = "miter" THEN Get(st, "stroke-miterlimit") ELSE N(0),
                      dash |-> ScaledList(sm, dash),
                      off |-> IF dash = <<"l", <<>>>> THEN N(0) ELSE Scaled(sm, Get(st, "stroke-dashoffset"))]
      text == IF n.n # "text" THEN <<>> ELSE p.d.nodes[e].runs
      empty == \/ isShape /\ n.geo.t # "raw" /\ Len(g) = 0
               \/ n.n = "image" /\ (\E a \in {"width", "height"} : a \in DOMAIN n.rest /\ n.rest[a] = "0")
               \/ n.n = "text" /\ text = <<>>
      blank == mode # "clip" /\ n.n # "image" /\ ~hasFill /\ ~hasStroke /\ ~hasMarks
  IN IF empty \/ blank \/ Get(st, "visibility") # S("visible") THEN <<>>
     ELSE <<[t |-> "leaf",
             kind |-> IF isShape THEN "shape" ELSE n.n,
             raw |-> IF n.geo.t = "raw" THEN n.geo.s ELSE IF n.n = "image" THEN n.ext ELSE "",
             g |-> g,
             m |-> IF needMap THEN m ELSE Identity,
             rest |-> IF isShape THEN <<>> ELSE Rest(n),
             text |-> text,
             clip |-> IF mode = "clip" THEN Get(st, "clip-rule")[2] ELSE "",
             fill |-> IF mode = "clip" \/ ~hasFill THEN <<None>> ELSE fp,
             fo |-> IF mode = "clip" \/ ~hasFill THEN N(0) ELSE Get(st, "fill-opacity"),
             rule |-> IF mode = "clip" \/ ~hasFill THEN "" ELSE Get(st, "fill-rule")[2],
             stroke |-> IF mode = "clip" THEN NoStroke ELSE stroke,
             marks |-> IF mode = "clip" THEN <<>> ELSE marks,
             order |-> IF (hasFill /\ hasStroke) \/ hasMarks THEN Get(st, "paint-order")[2] ELSE "",
             fixed |-> fixed /\ hasStroke,
             more |-> Pick(st, {"shape-rendering", "color-interpolation"} \cup (IF n.n = "text" THEN FontProps ELSE {})
                               \cup (IF n.n = "image" THEN {"image-rendering"} ELSE {}))]>>

Scope(kind, arg, m, rest, items) == [t |-> "scope", kind |-> kind, arg |-> arg, m |-> m, rest |-> rest, items |-> items]

(* An opacity applies to its items as one; over items that cannot overlap it    *)
(* applies to each of them.                                                     *)
LeafBox(x) == BoxOf(UNION {SubPoints(x.g[i]) : i \in DOMAIN x.g})
Spread(x) == IF x.stroke.w[1] = "n" THEN x.stroke.w[2] \div 5 ELSE 100000
Loose(x) == x.t = "leaf" /\ x.kind = "shape" /\ Len(x.g) > 0 /\ x.m = Identity /\ x.raw = ""
            /\ (Len(x.marks) = 0 \/ x.marks = <<<<None>>, <<None>>, <<None>>>>)
ApartItems(xs) == \A i, j \in DOMAIN xs : i < j => Loose(xs[i]) /\ Loose(xs[j]) /\ Apart(LeafBox(xs[i]), LeafBox(xs[j]), Spread(xs[i]) + Spread(xs[j]))

Opaque(o, items) ==
  IF o = 1000 THEN items
  ELSE IF o = 0 THEN <<>>
  ELSE IF Len(items) = 0 THEN <<>>
  ELSE IF Len(items) = 1 /\ items[1].t = "scope" /\ items[1].kind = "opacity"
  THEN <<Scope("opacity", <<N(RDiv(o * items[1].arg[1][2], 1000))>>, Identity, <<>>, items[1].items)>>
  ELSE IF Len(items) > 1 /\ ApartItems(items)
  THEN [i \in DOMAIN items |-> Scope("opacity", <<N(o)>>, Identity, <<>>, <<items[i]>>)]
  ELSE <<Scope("opacity", <<N(o)>>, Identity, <<>>, items)>>

Blend(bl, items) ==
  IF Len(items) > 1 /\ ApartItems(items)
  THEN [i \in DOMAIN items |-> Scope("blend", <<bl>>, Identity, <<>>, <<items[i]>>)]
  ELSE IF Len(items) = 0 THEN <<>> ELSE <<Scope("blend", <<bl>>, Identity, <<>>, items)>>

Effects(p, st, m, mode, fuel, items) ==
  LET fi == Get(st, "filter")
      cl == Get(st, "clip-path")
      ma == Get(st, "mask")
      bl == Get(st, "mix-blend-mode")
      fr == RefOf(p, fi, fuel)
      cr == RefOf(p, cl, fuel)
      mr == RefOf(p, ma, fuel)
      gone(v, r) == v = None \/ (Len(r) = 2 /\ r[2] = Missing)
      \* a filter over nothing shows nothing unless it makes an image of its own
      makes == Len(fr) = 2 /\ \E k \in DOMAIN fr[2].kids : fr[2].kids[k].n \in {"feFlood", "feImage", "feTurbulence"}
      x1 == IF mode = "clip" \/ gone(fi, fr) \/ (Len(items) = 0 /\ ~makes) THEN items ELSE <<Scope("filter", fr, m, <<>>, items)>>
      x2 == IF gone(cl, cr) \/ Len(x1) = 0 THEN x1 ELSE <<Scope("clip", cr, m, <<>>, x1)>>
      x3 == IF mode = "clip" \/ gone(ma, mr) \/ Len(x2) = 0 THEN x2 ELSE <<Scope("mask", mr, m, <<>>, x2)>>
      x4 == IF mode = "clip" THEN x3 ELSE Opaque(Get(st, "opacity")[2], x3)
      x5 == IF mode = "clip" \/ bl = S("normal") THEN x4 ELSE Blend(bl, x4)
  IN x5

Items(p, e, up, m0, mode, fuel) ==
  LET d == p.d
      n == d.nodes[e]
  IN IF n.k # "e" THEN <<>>
     ELSE
     LET st == Computed(p.decl[e], up)
         m == Mul(m0, MapOfList(n.tf))
         nested == n.n = "svg" /\ ParEl(d, e) # 0
     IN IF Get(st, "display") = None \/ fuel = 0 THEN <<>>
        ELSE IF n.n \in Shapes \cup {"text", "image"}
        THEN Effects(p, st, m, mode, fuel, Leaf(p, e, st, m, mode, fuel))
        ELSE IF n.n \in Groups
        THEN LET kids == KidItems(p, e, st, m, mode, fuel)
                 inner == IF nested /\ Len(kids) > 0 THEN <<Scope("viewport", <<Get(st, "overflow")>>, m, Rest(n), kids)>>
                          ELSE IF n.n = "a" /\ Len(kids) > 0 THEN <<Scope("link", <<S(n.ext)>>, Identity, Rest(n), kids)>>
                          ELSE kids
             IN Effects(p, st, m, mode, fuel, inner)
        ELSE IF n.n = "use"
        THEN LET es == ById(d, n.href)
                 um == Mul(m, Translate(n.at[1], n.at[2]))
             IN IF es = {} THEN <<>>
                ELSE LET t == FirstOf(es)
                         body == IF d.nodes[t].n = "symbol"
                                 THEN LET tst == Computed(p.decl[t], st)
                                          kids == KidItems(p, t, tst, um, mode, fuel - 1)
                                      IN IF Len(kids) = 0 THEN <<>>
                                         ELSE Effects(p, tst, um, mode, fuel,
                                                <<Scope("symbol", <<Get(tst, "overflow")>>, um,
                                                      [a \in DOMAIN Rest(n) \cup DOMAIN Rest(d.nodes[t]) |->
                                                         IF a \in DOMAIN Rest(n) THEN Rest(n)[a] ELSE Rest(d.nodes[t])[a]], kids)>>)
                                 ELSE Items(p, t, st, um, mode, fuel - 1)
                     IN Effects(p, st, m, mode, fuel, body)
        ELSE <<>>

(* Shapes that lie next to each other, painted alike and clear of each other,   *)
(* paint the same whether they are one element or several.  Strokes that reach  *)
(* from one into the other are not told apart.                                  *)
Split(x) ==
  IF ~Loose(x) \/ Len(x.g) < 2 \/ Len(x.fill) > 1 THEN <<x>>
  ELSE LET n == Len(x.g)
           pts == [i \in 1..n |-> SubPoints(x.g[i])]
       IN IF \A i, j \in 1..n : i < j => Parted(pts[i], pts[j])
          THEN [i \in 1..n |-> IF x.clip = "" /\ NormalOutline(<<x.g[i]>>, "fill", FALSE) = <<>>
                                THEN [x EXCEPT !.g = <<x.g[i]>>, !.fill = <<None>>, !.fo = N(0), !.rule = "", !.order = ""]
                                ELSE [x EXCEPT !.g = <<x.g[i]>>]]
          ELSE <<x>>
RECURSIVE SplitAll(_)
SplitAll(items) == FoldLeft(LAMBDA acc, x : acc \o (IF x.t = "leaf" THEN Split(x)
                                                   ELSE IF x.kind = "opacity"
                                                   THEN Opaque(x.arg[1][2], SplitAll(x.items))
                                                   ELSE IF x.kind = "blend"
                                                   THEN Blend(x.arg[1], SplitAll(x.items))
                                                   ELSE <<[x EXCEPT !.items = SplitAll(x.items)]>>), <<>>, items)

Root(d) == LET es == ElemKids(d, 1) IN IF Len(es) = 0 THEN 0 ELSE es[1]

Render(d, env) ==
  LET r == Root(d) IN
  IF r = 0 THEN [rest |-> <<>>, items |-> <<>>]
  ELSE LET p == Prepare(d, env) IN [rest |-> Rest(d.nodes[r]), items |-> SplitAll(Items(p, r, <<>>, Identity, "paint", Fuel))]
=============================================================================
