------------------------------- MODULE GenRef -------------------------------
(* Documents about references: elements that can be referred to, ids, and       *)
(* every kind of reference between them.                                        *)
EXTENDS Gen

M(k) == A("data-k", ToString(k))
\* preorder numbers: 1 svg, 2 defs, 3 linearGradient, 4 stop, 5 clipPath, 6 path, 7 path, 8 g, 9 path, 10 use, 11 rect, 12 animate, 13 text
Skeletons == [
  all |-> El("svg", <<M(1)>>, <<
     El("defs", <<M(2)>>, <<
        El("linearGradient", <<M(3)>>, <<El("stop", <<M(4), A("offset", "0"), A("stop-color", "red")>>, <<>>)>>),
        El("clipPath", <<M(5)>>, <<El("path", <<M(6), A("d", "M0 0h5v5z")>>, <<>>)>>),
        El("path", <<M(7), A("d", "M0 0h10v10z")>>, <<>>)>>),
     El("g", <<M(8)>>, <<
        El("path", <<M(9), A("d", "M0 0h10v10z")>>, <<>>),
        El("use", <<M(10), A("x", "30")>>, <<>>),
        El("rect", <<M(11), A("width", "9"), A("height", "9"), A("x", "60")>>, <<El("animate", <<M(12), A("attributeName", "x"), A("dur", "1s")>>, <<>>)>>)>>),
     El("text", <<M(13), A("x", "5")>>, <<[n |-> "#text", at |-> <<A("t", "hi")>>, kids |-> <<>>]>>)>>),
  deep |-> El("svg", <<M(1)>>, <<
     El("g", <<M(2)>>, <<El("g", <<M(3)>>, <<El("path", <<M(4), A("d", "M0 0h10v10z")>>, <<>>)>>)>>),
     El("path", <<M(5), A("d", "M20 0h10v10z")>>, <<>>),
     El("use", <<M(6), A("x", "30")>>, <<>>),
     El("radialGradient", <<M(7)>>, <<El("stop", <<M(8), A("offset", "0")>>, <<>>), El("stop", <<M(9), A("offset", "1"), A("stop-color", "red")>>, <<>>)>>),
     El("symbol", <<M(10)>>, <<El("path", <<M(11), A("d", "M20 0h10v10z")>>, <<>>)>>),
     El("circle", <<M(12), A("r", "5")>>, <<>>)>>)
]
Ids == <<"a", "b", "Long", "1">>
Url(n) == "url(#" \o n \o ")"
Each(f(_)) == [i \in 1..Len(Ids) |-> f(Ids[i])]
Two(f(_, _)) == <<f("a", "b"), f("b", "a"), f("b", "Long"), f("Long", "a")>>

IdRow == <<"id", Ids>>
Href == <<"href", Each(LAMBDA n : "#" \o n) \o <<"other.svg#a", "#gone">>>>
XHref == <<"xlink:href", Each(LAMBDA n : "#" \o n)>>
Paint(a) == <<a, Each(Url) \o <<"url(#gone)", "url('#a')">>>>
Styles == <<"style", Each(LAMBDA n : "fill:" \o Url(n)) \o Two(LAMBDA n, m : "fill:" \o Url(n) \o ";stroke:" \o Url(m))>>
Begin == <<"begin", Each(LAMBDA n : n \o ".click") \o Two(LAMBDA n, m : n \o ".end+1s;" \o m \o ".begin")>>
Label == <<"aria-labelledby", Each(LAMBDA n : n) \o Two(LAMBDA n, m : n \o " " \o m)>>

Pool(k) ==
  IF k = "all" THEN
       Table(<<3, 5, 7, 8, 9, 10, 11, 13>>, <<IdRow>>)
    \o Table(<<3>>, <<Href, XHref>>)
    \o Table(<<8>>, <<Paint("clip-path"), <<"class", <<"a">>>>>>)
    \o Table(<<9>>, <<Paint("fill"), Paint("stroke"), Styles, Label>>)
    \o Table(<<10>>, <<Href, XHref>>)
    \o Table(<<12>>, <<Begin, Href>>)
    \o RulesTable(<<"#a{fill:red}", "#b path{fill:lime}", ".a #Long{stroke:red}", "path{clip-path:url(#a)}", "rect{fill:url(#Long)}", ":not(#a){stroke:blue}">>)
  ELSE Table(<<2, 3, 4, 5, 7, 10, 11>>, <<IdRow>>)
    \o Table(<<6>>, <<Href, XHref>>)
    \o Table(<<12>>, <<Paint("fill"), Paint("stroke"), Styles, <<"mask", <<Url("a")>>>>, <<"filter", <<Url("b")>>>>, <<"marker-end", <<Url("a")>>>>>>)
    \o Table(<<5>>, <<Paint("stroke"), <<"class", <<"a", "b">>>>>>)
    \o RulesTable(<<"#a{fill:red}", "#b,.a{stroke:url(#a)}", "g #a{fill:lime}">>)
Pools == [k \in DOMAIN Skeletons |-> Pool(k)]
\* ids may be repeated here
FitsHere(d, ds) == d.e = 0 \/ \A k \in DOMAIN ds : ds[k].a # d.a \/ ds[k].e # d.e

Chosen(k, ds) == [i \in DOMAIN ds |-> Pools[k][ds[i]]]
Emit(k, ds) == PrintT("@@" \o ToJson([skel |-> k, tree |-> Skeletons[k], decs |-> Chosen(k, ds)]))
Init == skel \in DOMAIN Skeletons /\ decs = <<>> /\ last = 0
\* exhaustive: every set of MaxDecs decorations with an id among them
Grow == /\ Len(decs) < MaxDecs
        /\ \E i \in (last + 1)..Len(Pools[skel]) :
             /\ FitsHere(Pools[skel][i], Chosen(skel, decs))
             /\ decs = <<>> => Pools[skel][i].a = "id"
             /\ decs' = Append(decs, i) /\ last' = i
             /\ Emit(skel, decs')
        /\ UNCHANGED skel
Spec == Init /\ [][Grow]_<<skel, decs, last>>
\* simulation: alternate ids and references
Sorts == [k \in DOMAIN Skeletons |-> [ids |-> {i \in 1..Len(Pools[k]) : Pools[k][i].a = "id"},
                                      refs |-> {i \in 1..Len(Pools[k]) : Pools[k][i].a # "id" /\ Pools[k][i].e # 0},
                                      rules |-> {i \in 1..Len(Pools[k]) : Pools[k][i].e = 0}]]
Turn == IF last % 7 = 6 THEN "rules" ELSE IF last % 2 = 0 THEN "ids" ELSE "refs"
Roam == \E i \in {RandomElement(Sorts[skel][Turn])} :
          /\ decs' = IF FitsHere(Pools[skel][i], Chosen(skel, decs)) /\ \A k \in DOMAIN decs : decs[k] # i THEN Append(decs, i) ELSE decs
          /\ last' = last + 1
          /\ IF decs' # decs /\ Len(decs') >= 3 THEN Emit(skel, decs') ELSE TRUE
          /\ UNCHANGED skel
RoamSpec == Init /\ [][Roam]_<<skel, decs, last>>
=============================================================================
