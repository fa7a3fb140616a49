------------------------------ MODULE GenPaint ------------------------------
(* Documents about painting: groups, shapes, presentation attributes, inline    *)
(* styles, style rules, references.                                             *)
EXTENDS Gen

P1 == El("path", <<A("d", "M0 0h10v10z")>>, <<>>)
P2 == El("path", <<A("d", "M30 0h10v10z")>>, <<>>)
P3 == El("path", <<A("d", "M5 0h10v10z")>>, <<>>)
R1 == El("rect", <<A("width", "20"), A("height", "10")>>, <<>>)
C1 == El("circle", <<A("cx", "60"), A("cy", "20"), A("r", "5")>>, <<>>)
G(kids) == El("g", <<>>, kids)
T1 == El("text", <<A("x", "5"), A("y", "5")>>, <<[n |-> "#text", at |-> <<A("t", "hi")>>, kids |-> <<>>]>>)
U(id) == El("use", <<A("href", "#" \o id)>>, <<>>)

At(e, as) == [e EXCEPT !.at = @ \o as]
L1 == El("polyline", <<A("points", "0 0 10 0 10 10")>>, <<>>)
Y1 == El("polygon", <<A("points", "20 0 30 0 30 10")>>, <<>>)
N1 == El("line", <<A("x1", "40"), A("x2", "50"), A("y2", "10")>>, <<>>)
E1 == El("ellipse", <<A("cx", "80"), A("cy", "20"), A("rx", "5"), A("ry", "8")>>, <<>>)
Defs(kids) == El("defs", <<>>, kids)
K(n) == A("id", n)

\* element numbers are preorder, 1 is the svg element
Skeletons == [
  gp    |-> El("svg", <<>>, <<G(<<P1>>)>>),
  gpp   |-> El("svg", <<>>, <<G(<<P1, P2>>)>>),
  ggp   |-> El("svg", <<>>, <<G(<<G(<<P1>>)>>)>>),
  ggpp  |-> El("svg", <<>>, <<G(<<G(<<P1>>), P2>>)>>),
  pp    |-> El("svg", <<>>, <<P1, P2>>),
  ov    |-> El("svg", <<>>, <<P1, P3>>),
  ppp   |-> El("svg", <<>>, <<P1, P3, P2>>),
  shapes|-> El("svg", <<>>, <<R1, C1>>),
  use   |-> El("svg", <<>>, <<El("defs", <<>>, <<El("path", <<A("id", "u"), A("d", "M0 0h10v10z")>>, <<>>)>>), U("u")>>),
  useg  |-> El("svg", <<>>, <<El("g", <<A("id", "u")>>, <<P1>>), U("u")>>),
  sym   |-> El("svg", <<>>, <<El("symbol", <<A("id", "u"), A("viewBox", "0 0 10 10")>>, <<P1>>), U("u")>>),
  text  |-> El("svg", <<>>, <<G(<<T1>>)>>),
  nest  |-> El("svg", <<>>, <<El("svg", <<A("width", "50"), A("height", "50")>>, <<P1>>)>>),
  usein |-> El("svg", <<>>, <<G(<<At(P1, <<K("u")>>), P2>>), U("u")>>),
  usegg |-> El("svg", <<>>, <<G(<<At(G(<<P1>>), <<K("u")>>)>>), U("u")>>),
  same  |-> El("svg", <<>>, <<G(<<At(P1, <<A("fill", "red")>>), At(P2, <<A("fill", "red")>>)>>)>>),
  samet |-> El("svg", <<>>, <<G(<<At(R1, <<A("transform", "translate(10 20)")>>), At(C1, <<A("transform", "translate(10 20)")>>)>>)>>),
  clipd |-> El("svg", <<>>, <<Defs(<<El("clipPath", <<K("k")>>, <<P1>>)>>), At(P3, <<A("clip-path", "url(#k)")>>)>>),
  maskd |-> El("svg", <<>>, <<El("mask", <<K("k")>>, <<G(<<P1>>)>>), G(<<At(P3, <<A("mask", "url(#k)")>>)>>)>>),
  patd  |-> El("svg", <<>>, <<Defs(<<El("pattern", <<K("k"), A("width", "4"), A("height", "4")>>, <<P1>>)>>), At(P3, <<A("fill", "url(#k)")>>)>>),
  markd |-> El("svg", <<>>, <<El("marker", <<K("k")>>, <<P1>>), G(<<At(P3, <<A("marker-start", "url(#k)")>>)>>)>>),
  link  |-> El("svg", <<>>, <<El("a", <<A("href", "x")>>, <<P1>>)>>),
  polys |-> El("svg", <<>>, <<L1, Y1, N1, E1>>),
  swi   |-> El("svg", <<>>, <<El("switch", <<>>, <<G(<<P1>>)>>)>>),
  empt  |-> El("svg", <<>>, <<G(<<>>), G(<<G(<<>>)>>), P1>>),
  grad  |-> El("svg", <<>>, <<El("linearGradient", <<K("k")>>, <<El("stop", <<A("offset", "0"), A("stop-color", "red")>>, <<>>), El("stop", <<A("offset", "1")>>, <<>>)>>), At(P3, <<A("fill", "url(#k)")>>)>>),
  big   |-> El("svg", <<>>, <<G(<<G(<<P1, R1>>), G(<<P2>>), P3>>), G(<<C1>>), T1>>)
]
Targets == [gp |-> <<2, 3>>, gpp |-> <<2, 3, 4>>, ggp |-> <<2, 3, 4>>, ggpp |-> <<2, 3, 4, 5>>, pp |-> <<2, 3>>, ov |-> <<2, 3>>, ppp |-> <<2, 3, 4>>,
            shapes |-> <<2, 3>>, use |-> <<3, 4>>, useg |-> <<2, 3, 4>>, sym |-> <<2, 3, 4>>, text |-> <<2, 3>>, nest |-> <<2, 3>>,
            usein |-> <<2, 3, 5>>, usegg |-> <<2, 3, 5>>, same |-> <<2, 3>>, samet |-> <<2, 3>>, clipd |-> <<3, 4, 5>>, maskd |-> <<2, 3, 4, 5>>,
            patd |-> <<3, 4, 5>>, markd |-> <<2, 3, 5>>, link |-> <<2, 3>>, polys |-> <<2, 3, 4, 5>>, swi |-> <<2, 3>>, empt |-> <<2, 3, 4>>, grad |-> <<2, 3, 4>>,
            big |-> <<2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>]

AttrsSmall == <<
  <<"fill", <<"red", "none", "url(#gr)">>>>,
  <<"stroke", <<"blue", "none">>>>,
  <<"stroke-width", <<"0", "3">>>>,
  <<"opacity", <<"0", ".5">>>>,
  <<"fill-opacity", <<"0">>>>,
  <<"display", <<"none">>>>,
  <<"visibility", <<"hidden", "visible">>>>,
  <<"clip-path", <<"url(#cp)">>>>,
  <<"filter", <<"url(#fl)">>>>,
  <<"transform", <<"translate(10 20)", "scale(2)">>>>,
  <<"class", <<"a", "b">>>>,
  <<"id", <<"x">>>>,
  <<"style", <<"fill:green", "opacity:.3;stroke:red">>>>
>>
AttrsMore == AttrsSmall \o <<
  <<"fill", <<"#00f", "currentColor", "inherit", "rgb(0,0,0)", "transparent">>>>,
  <<"stroke", <<"url(#gr)", "currentColor">>>>,
  <<"stroke-opacity", <<"0", ".5">>>>,
  <<"stroke-linecap", <<"round">>>>,
  <<"stroke-linejoin", <<"round">>>>,
  <<"stroke-dasharray", <<"2 3", "none">>>>,
  <<"stroke-miterlimit", <<"8">>>>,
  <<"fill-rule", <<"evenodd">>>>,
  <<"fill-opacity", <<".5", "1">>>>,
  <<"mask", <<"url(#mk)">>>>,
  <<"marker-mid", <<"url(#mr)">>>>,
  <<"marker-end", <<"url(#mr)">>>>,
  <<"color", <<"green">>>>,
  <<"display", <<"inline">>>>,
  <<"opacity", <<"1">>>>,
  <<"transform", <<"rotate(90)", "matrix(1 0 0 1 0 0)", "matrix(0 2 -2 0 5 5)", "scale(2 3)", "translate(5) scale(-1 1)">>>>,
  <<"paint-order", <<"stroke">>>>,
  <<"vector-effect", <<"non-scaling-stroke">>>>,
  <<"class", <<"a b">>>>,
  <<"data-n", <<"v">>>>,
  <<"style", <<"fill:none", "fill:green!important", "display:none", "fill:green;fill:blue", "stroke:red;stroke-width:2", "clip-path:url(#cp)", "visibility:hidden", "mix-blend-mode:multiply">>>>
>>
RulesSmall == <<".a{fill:lime}", ".a{opacity:.5}", "g{stroke:red}", "#x{fill:lime}", ".a .b{fill:aqua}", "path{fill:none}", "@media print{.a{fill:blue}}", "path:hover{fill:yellow}">>
RulesMore == RulesSmall \o <<".a{fill:lime!important}", "*{fill:teal}", ".a>path{stroke:lime}", "path.a{fill:navy}", ".b{fill:navy;stroke:lime}", ".a,.b{stroke:navy}",
   "[id=x]{fill:pink}", "path:not(.a){stroke:pink}", ".a{display:none}", ".a{visibility:hidden}", ".a{stroke-width:4;stroke:url(#gr)}",
   "@media print{path{fill:tan!important}}", ".b{clip-path:url(#cp)}", "#x .a{fill:plum}">>

\* an element's own rule that always holds, holds on one medium, or in one state; and what an animation sets
Own == <<"fill:lime", "fill:none", "stroke:lime", "stroke-width:0", "opacity:0", "display:none", "visibility:hidden", "clip-path:url(#cp)">>
AttrsCond == <<
  <<"media", Own>>,
  <<"hover", Own>>,
  <<"anim", <<"fill:lime", "stroke:lime", "stroke-width:3", "opacity:1", "opacity:0", "display:inline", "display:none", "visibility:visible">>>>,
  <<"styled", Own>>
>>
Simple == {"gp", "gpp", "ggp", "ggpp", "pp", "ov", "shapes", "use", "useg", "text", "usein", "same", "clipd", "maskd", "markd", "link", "empt"}

Pool(k) == IF Family = "cond" THEN Table(Targets[k], AttrsCond) \o Table(Targets[k], AttrsSmall)
           ELSE IF Family = "small" THEN Table(Targets[k], AttrsSmall) \o RulesTable(RulesSmall)
           ELSE Table(Targets[k], AttrsMore) \o RulesTable(RulesMore)
\* worked out once
Pools == [k \in DOMAIN Skeletons |-> Pool(k)]

Wanted == IF "SKEL" \in DOMAIN IOEnv /\ IOEnv.SKEL # "" THEN {IOEnv.SKEL} ELSE IF Family = "cond" THEN Simple ELSE DOMAIN Skeletons

Emit(k, ds) == PrintT("@@" \o ToJson([skel |-> k, tree |-> Skeletons[k], decs |-> [i \in DOMAIN ds |-> Pools[k][ds[i]]]]))
Chosen(k, ds) == [i \in DOMAIN ds |-> Pools[k][ds[i]]]

Init == /\ skel \in Wanted
        /\ decs = <<>>
        /\ last = 0
\* exhaustive: every set of decorations, in pool order
Grow == /\ Len(decs) < MaxDecs
        /\ \E i \in (last + 1)..Len(Pools[skel]) :
             /\ (Family = "cond" /\ decs = <<>>) => Pools[skel][i].a \in {"media", "hover", "anim", "styled"}
             /\ Fits(Pools[skel][i], Chosen(skel, decs))
             /\ decs' = Append(decs, i)
             /\ last' = i
             /\ Emit(skel, decs')
        /\ UNCHANGED skel
Spec == Init /\ [][Grow]_<<skel, decs, last>>

\* simulation: any order, printed when a walk is long enough
Roam == \E i \in {RandomElement(1..Len(Pools[skel]))} :
          /\ decs' = IF Fits(Pools[skel][i], Chosen(skel, decs)) /\ \A k \in DOMAIN decs : decs[k] # i THEN Append(decs, i) ELSE decs
          /\ last' = last + 1
          /\ (decs' # decs /\ Len(decs') >= 3) => Emit(skel, decs')
          /\ UNCHANGED skel
RoamSpec == Init /\ [][Roam]_<<skel, decs, last>>
=============================================================================
