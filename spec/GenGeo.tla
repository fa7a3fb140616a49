------------------------------- MODULE GenGeo -------------------------------
(* Shapes under nested transforms: an outer group, an inner group and the shape *)
(* each carry a list of transform functions; the shape is of any kind, its      *)
(* numbers in any absolute unit; it may be filled, stroked or used elsewhere.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Family
VARIABLES doc, n

Fn == {"translate(10 20)", "translate(-5)", "scale(2)", "scale(-1 1)", "scale(2 3)", "scale(.5)", "rotate(90)", "rotate(-90 10 20)", "rotate(180)",
       "skewX(45)", "skewY(-45)", "matrix(0 1 -1 0 5 5)", "matrix(1 0 0 1 10 0)", "matrix(2 0 0 2 5 10)", "matrix(-1 0 0 1 40 0)", "matrix(1 0 1 1 0 0)",
       "translate(0)", "scale(1)", "rotate(0)", "matrix(1 0 0 1 0 0)", "rotate(360)", "skewX(0)"}
FewFn == {"translate(10 20)", "scale(2)", "scale(-1 1)", "scale(2 3)", "rotate(90)", "matrix(0 1 -1 0 5 5)", "matrix(2 0 0 2 5 10)", "skewX(45)"}
Shapes == {
  "path d='M0 0h10v10z'", "path d='M10 0L20 10 10 20M30 30l10 0 0 10z'", "path d='M0 0C0 10 10 10 10 0S20 10 20 0'", "path d='M0 0Q10 10 20 0T40 0'",
  "path d='M0 10A10 5 0 0 1 20 10V20z'", "path d='m10 10a10 10 0 1 0 20 0'", "path d='M10 20H40V40'",
  "rect width='20' height='10'", "rect x='10' y='20' width='20' height='10'", "rect x='10' width='20' height='10' rx='2'", "rect width='.25in' height='.125in'",
  "rect x='1pc' y='3pt' width='20px' height='10'", "rect width='0' height='10'", "rect y='-10' width='20' height='5'", "rect width='50%' height='10'",
  "circle r='10'", "circle cx='20' cy='30' r='5'", "circle cx='.25in' r='6pt'", "circle r='0'",
  "ellipse rx='10' ry='5'", "ellipse cx='20' cy='30' rx='5' ry='5'", "ellipse cx='20' rx='8' ry='1pc'", "ellipse cx='10' cy='10' rx='auto' ry='5'",
  "line x2='20'", "line x1='10' y1='20' x2='30' y2='20'", "line x1='.25in' y2='12pt'", "line y1='5' x2='10%'",
  "polyline points='0 0 10 0 10 10'", "polyline points='10,20,30,20 30,40'", "polyline points='5 5'", "polyline points='0 0 10 10 20'",
  "polygon points='20 0 30 0 30 10'", "polygon points='0,0 10,0 10,10 0,10'", "polygon points='0 0 10 0'" }
FewShapes == {"path d='M0 0h10v10z'", "path d='M0 10A10 5 0 0 1 20 10V20z'", "path d='M0 0C0 10 10 10 10 0S20 10 20 0'",
  "rect x='10' y='20' width='20' height='10'", "rect x='1pc' y='3pt' width='20px' height='10'", "circle cx='20' cy='30' r='5'", "ellipse cx='20' cy='30' rx='5' ry='5'",
  "ellipse cx='20' rx='8' ry='1pc'", "line x1='10' y1='20' x2='30' y2='20'", "polyline points='10,20,30,20 30,40'", "polygon points='20 0 30 0 30 10'"}
Paints == {"", "fill='red'", "stroke='red' fill='none'", "stroke='red' stroke-width='3'", "stroke='red' stroke-dasharray='4 2' stroke-dashoffset='1'",
  "style='stroke:red;stroke-width:2px'", "class='a'", "stroke='red' vector-effect='non-scaling-stroke'", "fill='url(#gr)'", "clip-path='url(#cp)'", "marker-end='url(#mr)'", "id='u'",
  "fill='url(#gt)'", "fill='url(#pt)'"}
FewPaints == {"", "stroke='red' fill='none'", "stroke='red' stroke-width='3'", "id='u'"}
\* selectors that tell the kinds of shapes apart
Ruled == {"rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "svg>circle", "svg ellipse"}
Groups == {"", "stroke='red'", "stroke-width='4'", "style='stroke:red'", "clip-path='url(#cp)'", "opacity='.5'", "filter='url(#fl)'"}

Lists(fs, k) == UNION {[1..i -> fs] : i \in 0..k}
Doc(outer, inner, own, shape, paint, group) == [outer |-> outer, inner |-> inner, own |-> own, shape |-> shape, paint |-> paint, group |-> group]

All ==
  IF Family = "own" THEN {Doc(<<>>, <<>>, t, s, "", "") : t \in Lists(Fn, 1), s \in Shapes}
                         \cup {Doc(<<>>, <<>>, t, s, p, "") : t \in Lists(FewFn, 1), s \in FewShapes, p \in Paints}
                         \cup {Doc(<<>>, <<>>, t, s, "", "") : t \in Lists(Fn, 2), s \in {"path d='M0 0h10v10z'", "rect x='10' y='20' width='20' height='10'"}}
                         \cup {Doc(<<>>, <<>>, <<>>, s, "rule:" \o r, "") : s \in Shapes, r \in Ruled}
                         \cup {Doc(<<>>, <<>>, t, "rect x='10' y='20' width='20' height='10'", p, "") : t \in Lists(Fn, 2), p \in {"fill='url(#gt)'", "fill='url(#pt)'"}}
  ELSE IF Family = "nest" THEN {Doc(o, i, t, s, p, "") : o \in Lists(FewFn, 1), i \in Lists(FewFn, 1), t \in Lists(FewFn, 1), s \in FewShapes, p \in FewPaints}
  ELSE {Doc(o, <<>>, t, s, p, g) : o \in Lists(FewFn, 1), t \in Lists(FewFn, 1), s \in FewShapes, p \in FewPaints, g \in Groups}

Init == /\ n = 0
        /\ doc = Doc(<<>>, <<>>, <<>>, "path d='M0 0h10v10z'", "", "")
Each == /\ n = 0
        /\ n' = 1
        /\ doc' \in All
        /\ PrintT("@@" \o ToJson(doc'))
Spec == Init /\ [][Each]_<<doc, n>>

\* any combination, with lists of up to three functions
Pick(fs) == LET k == RandomElement(0..3) IN [i \in 1..k |-> RandomElement(fs)]
Walk == /\ n' = n + 1
        /\ \E o \in {Pick(Fn)}, i \in {Pick(Fn)}, t \in {Pick(Fn)}, s \in {RandomElement(Shapes)}, p \in {RandomElement(Paints)}, g \in {RandomElement(Groups)} :
             doc' = Doc(IF Len(o) > 2 THEN <<>> ELSE o, IF Len(i) > 2 THEN <<>> ELSE i, t, s, p, g)
        /\ PrintT("@@" \o ToJson(doc'))
WalkSpec == Init /\ [][Walk]_<<doc, n>>
=============================================================================
