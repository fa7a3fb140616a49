----------------------------- MODULE GenCascade -----------------------------
(* Documents about the cascade: competing sources of a few properties on a      *)
(* chain of elements.                                                           *)
EXTENDS Gen

Pt == El("path", <<A("d", "M0 0h10v10z")>>, <<>>)
Skeletons == [
  chain |-> El("svg", <<>>, <<El("g", <<>>, <<El("g", <<>>, <<Pt>>)>>)>>),
  sibs  |-> El("svg", <<>>, <<El("g", <<>>, <<Pt, El("rect", <<>>, <<>>)>>), Pt>>),
  lone  |-> El("svg", <<>>, <<Pt>>)
]
Targets == [chain |-> <<2, 3, 4>>, sibs |-> <<2, 3, 4>>, lone |-> <<1, 2>>]

Attrs == <<
  <<"fill", <<"red", "inherit", "currentColor", "none">>>>,
  <<"opacity", <<".5">>>>,
  <<"stroke-width", <<"3">>>>,
  <<"clip-path", <<"url(#cp)">>>>,
  <<"visibility", <<"hidden">>>>,
  <<"marker-mid", <<"url(#mr)">>>>,
  <<"color", <<"green">>>>,
  <<"class", <<"a", "b", "a b">>>>,
  <<"id", <<"x">>>>,
  <<"style", <<"fill:green", "fill:blue!important", "fill:green;fill:blue", "fill:blue!important;fill:green", "opacity:.3;stroke-width:4", "visibility:visible", "marker:none", "fill:inherit", "mix-blend-mode:multiply", "clip-path:none">>>>
>>
Rules == <<".a{fill:lime}", ".a{fill:lime!important}", ".b{fill:navy}", "#x{fill:pink}", "path{fill:tan}", "g{fill:plum}", "*{fill:teal}", "g path{fill:aqua}", "g>.a{fill:coral}",
  "path.a{fill:gold}", ".a,.b{fill:peru}", ".a.b{fill:snow}", ":not(.a){fill:linen}", "[id=x]{fill:azure}", ".b{fill:khaki;fill:ivory}", "path{fill:beige!important}",
  ".a{opacity:.7}", "g{opacity:.2}", ".a{stroke-width:9}", "g{stroke-width:8}", ".b{clip-path:url(#cp)}", "g{visibility:hidden}", ".a{visibility:visible}", ".b{marker-mid:url(#mr)}", "g{marker:url(#mr)}",
  "@media print{.a{fill:red}}", "@media print{path{fill:lime!important}}", "@media print{g{opacity:.1}}", "@media print{g{stroke-width:7}}", "@media screen{#x{fill:blue;visibility:hidden}}", ".a{mix-blend-mode:screen}", ".a{fill:inherit}", "#x{color:lime}">>

\* rules of a second style sheet
Rules2 == <<".a{fill:orchid}", "path{opacity:.6}", "@media print{.a{stroke-width:6}}">>
Pool(k) == Table(Targets[k], Attrs) \o RulesTable(Rules) \o [j \in 1..Len(Rules2) |-> Dec(0, "rule2", Rules2[j])]
Pools == [k \in DOMAIN Skeletons |-> Pool(k)]
Chosen(k, ds) == [i \in DOMAIN ds |-> Pools[k][ds[i]]]
Emit(k, ds) == PrintT("@@" \o ToJson([skel |-> k, tree |-> Skeletons[k], decs |-> Chosen(k, ds)]))

Init == /\ skel \in DOMAIN Skeletons
        /\ decs = <<>>
        /\ last = 0
Grow == /\ Len(decs) < MaxDecs
        /\ \E i \in (last + 1)..Len(Pools[skel]) :
             /\ Fits(Pools[skel][i], Chosen(skel, decs))
             /\ decs' = Append(decs, i)
             /\ last' = i
             /\ Emit(skel, decs')
        /\ UNCHANGED skel
Spec == Init /\ [][Grow]_<<skel, decs, last>>

Roam == \E i \in {RandomElement(1..Len(Pools[skel]))} :
          /\ decs' = IF Fits(Pools[skel][i], Chosen(skel, decs)) /\ \A k \in DOMAIN decs : decs[k] # i THEN Append(decs, i) ELSE decs
          /\ last' = last + 1
          /\ (decs' # decs /\ Len(decs') >= 3) => Emit(skel, decs')
          /\ UNCHANGED skel
\* two or three rules contend for one property of an element they all match, each at several weights
DuelSels == <<"path", ".a", ".b", "#x", "*", ".a.b", "path.a", "path,#x", "#x,path", ".c,.a,path", ".b,#x.a", "svg path", "svg>.a", ":not(.c)", "[id=x]", "[id=x],path", "path:first-child", ":not(#y)">>
DuelVals == <<"lime", "navy", "pink">>
DuelTree == El("svg", <<>>, <<El("path", <<A("id", "x"), A("class", "a b"), A("d", "M0 0h10v10z")>>, <<>>)>>)
Duel == /\ decs = <<>>
        /\ skel = "lone"
        /\ \E k \in 2..MaxDecs : \E f \in [1..k -> 1..Len(DuelSels)], imp \in [1..k -> BOOLEAN] :
             /\ k = 3 => imp = [i \in 1..3 |-> FALSE]
             /\ PrintT("@@" \o ToJson([skel |-> "duel", tree |-> DuelTree,
                    decs |-> [i \in 1..k |-> Dec(0, "rule", DuelSels[f[i]] \o "{fill:" \o DuelVals[i] \o (IF imp[i] THEN "!important}" ELSE "}"))]]))
             /\ decs' = f
        /\ UNCHANGED <<skel, last>>
DuelSpec == Init /\ [][Duel]_<<skel, decs, last>>

RoamSpec == Init /\ [][Roam]_<<skel, decs, last>>
=============================================================================
