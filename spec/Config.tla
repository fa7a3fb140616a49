------------------------------- MODULE Config -------------------------------
(* Which jobs a configuration makes run, with which options, in which order. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

(* Every job in the order in which jobs run: <<name, in the default preset, options>>.
   An option is <<name, values worth telling apart (as JSON)>>; a job whose only option has the empty
   name is configured by that value itself, and one of a single TRUE/FALSE value is a switch.
   A name ending in "!" is an option that has to be given. *)
B == <<"true", "false">>
Switch == <<<<"", B>>>>
Table == <<
  <<"precheck", FALSE, <<<<"failFast", B>>, <<"precleanChecks", B>>>>>>,
  <<"addAttributesToSVGElement", FALSE, <<<<"attributes!", <<"{\"data-a\": \"1\"}", "{\"data-a\": \"1\", \"data-b\": \"2\"}", "{}">>>>>>>>,
  <<"addClassesToSVGElement", FALSE, <<<<"classNames", <<"[\"u\"]", "[\"u\", \"v\"]">>>>, <<"className", <<"\"w\"">>>>>>>>,
  <<"cleanupListOfValues", FALSE, <<<<"floatPrecision", <<"1", "3">>>>, <<"defaultPx", B>>, <<"convertToPx", B>>>>>>,
  <<"convertOneStopGradients", FALSE, Switch>>,
  <<"convertStyleToAttrs", FALSE, <<<<"keepImportant", B>>>>>>,
  <<"removeAttributesBySelector", FALSE, <<<<"", <<"[{\"attributes\": [\"fill\"], \"selector\": \"rect\"}]", "[]">>>>>>>>,
  <<"removeAttrs", FALSE, <<<<"attrs!", <<"[\"fill\"]", "[]">>>>, <<"elemSeparator", <<"\";\"">>>>, <<"preserveCurrentColor", B>>>>>>,
  <<"removeDimensions", FALSE, Switch>>,
  <<"removeElementsByAttr", FALSE, <<<<"id", <<"[\"a\"]", "[]">>>>, <<"class", <<"[\"c\"]", "[]">>>>>>>>,
  <<"removeOffCanvasPaths", FALSE, Switch>>,
  <<"removeRasterImages", FALSE, Switch>>,
  <<"removeScripts", FALSE, Switch>>,
  <<"removeStyleElement", FALSE, Switch>>,
  <<"removeTitle", FALSE, Switch>>,
  <<"removeViewBox", FALSE, Switch>>,
  <<"reusePaths", FALSE, Switch>>,
  <<"removeXMLNS", FALSE, Switch>>,
  <<"removeDoctype", TRUE, Switch>>,
  <<"removeXMLProcInst", TRUE, Switch>>,
  <<"removeComments", TRUE, <<<<"preservePatterns", <<"[\"^!\"]", "[\"k\"]", "[]">>>>>>>>,
  <<"removeDeprecatedAttrs", TRUE, <<<<"removeAny", B>>>>>>,
  <<"removeMetadata", TRUE, Switch>>,
  <<"removeEditorsNSData", TRUE, <<<<"additionalNamespaces", <<"[\"urn:e\"]">>>>>>>>,
  <<"cleanupAttrs", TRUE, <<<<"newlines", B>>, <<"trim", B>>, <<"spaces", B>>>>>>,
  <<"mergeStyles", TRUE, Switch>>,
  <<"inlineStyles", TRUE, <<<<"onlyMatchedOnce", B>>, <<"removeMatchedSelectors", B>>, <<"useMqs", <<"[]", "[\"print\"]">>>>, <<"usePseudos", <<"[]", "[\"hover\"]">>>>>>>>,
  <<"minifyStyles", TRUE, <<<<"usage", <<"true", "false", "\"force\"">>>>>>>>,
  <<"cleanupIds", TRUE, <<<<"remove", B>>, <<"minify", B>>, <<"preserve", <<"[\"a\"]">>>>, <<"preservePrefixes", <<"[\"a\"]">>>>, <<"force", B>>>>>>,
  <<"removeUselessDefs", TRUE, Switch>>,
  <<"cleanupNumericValues", TRUE, <<<<"floatPrecision", <<"1", "3">>>>, <<"defaultPx", B>>, <<"convertToPx", B>>>>>>,
  <<"convertColors", TRUE, <<<<"method", <<"\"lightning\"", "\"currentColor\"">>>>>>>>,
  <<"removeUnknownsAndDefaults", TRUE, <<<<"unknownContent", B>>, <<"unknownAttrs", B>>, <<"defaultAttrs", B>>, <<"defaultMarkupDeclarations", B>>,
      <<"uselessOverrides", B>>, <<"keepDataAttrs", B>>, <<"keepAriaAttrs", B>>, <<"keepRoleAttr", B>>>>>>,
  <<"removeNonInheritableGroupAttrs", TRUE, Switch>>,
  <<"removeUselessStrokeAndFill", TRUE, <<<<"stroke", B>>, <<"fill", B>>, <<"removeNone", B>>>>>>,
  <<"cleanupEnableBackground", TRUE, Switch>>,
  <<"removeHiddenElems", TRUE, <<<<"isHidden", B>>, <<"displayNone", B>>, <<"opacityZero", B>>, <<"circleRZero", B>>, <<"ellipseRxZero", B>>, <<"ellipseRyZero", B>>,
      <<"rectWidthZero", B>>, <<"rectHeightZero", B>>, <<"patternWidthZero", B>>, <<"patternHeightZero", B>>, <<"imageWidthZero", B>>, <<"imageHeightZero", B>>,
      <<"pathEmptyD", B>>, <<"polylineEmptyPoints", B>>, <<"polygonEmptyPoints", B>>>>>>,
  <<"removeEmptyText", TRUE, <<<<"text", B>>, <<"tspan", B>>, <<"tref", B>>>>>>,
  <<"convertShapeToPath", TRUE, <<<<"convertArcs", B>>, <<"floatPrecision", <<"1", "4">>>>>>>>,
  <<"convertEllipseToCircle", TRUE, Switch>>,
  <<"moveElemsAttrsToGroup", TRUE, Switch>>,
  <<"moveGroupAttrsToElems", TRUE, Switch>>,
  <<"collapseGroups", TRUE, Switch>>,
  <<"applyTransforms", TRUE, <<<<"transformPrecision", <<"2.0", "5.0">>>>, <<"applyTransformsStroked", B>>>>>>,
  <<"convertPathData", TRUE, <<<<"closeSegments", B>>, <<"uniteSegments", B>>, <<"joinNodes", B>>, <<"removeEmptySegments", B>>, <<"removeZeroSegments", B>>,
      <<"removeCloseLine", B>>, <<"straightCurves", B>>, <<"arcCurves", B>>, <<"smartArcRounding", B>>, <<"tolerance", <<"{\"angular\": 0.01, \"positional\": 0.1, \"precision\": 2}">>>>>>>>,
  <<"convertTransform", TRUE, <<<<"convertToShorts", B>>, <<"degPrecision", <<"1", "2">>>>, <<"floatPrecision", <<"1", "4">>>>, <<"transformPrecision", <<"2", "6">>>>,
      <<"matrixToTransform", B>>, <<"shortRotate", B>>, <<"removeUseless", B>>, <<"collapseIntoOne", B>>>>>>,
  <<"removeEmptyAttrs", TRUE, Switch>>,
  <<"removeEmptyContainers", TRUE, Switch>>,
  <<"removeUnusedNS", TRUE, Switch>>,
  <<"mergePaths", TRUE, <<<<"force", B>>>>>>,
  <<"sortAttrs", TRUE, <<<<"order", <<"[\"fill\", \"id\"]">>>>, <<"xmlnsOrder", <<"\"front\"", "\"alphabetical\"">>>>>>>>,
  <<"sortDefsChildren", TRUE, Switch>>,
  <<"removeDesc", TRUE, <<<<"removeAny", B>>>>>>,
  <<"prefixIds", FALSE, <<<<"delim", <<"\"-\"">>>>, <<"prefix", <<"\"p\"", "true", "false">>>>, <<"prefixIds", B>>, <<"prefixClassNames", B>>>>>>,
  <<"removeXlink", FALSE, <<<<"includeLegacy", B>>>>>>
>>

Off == "off"
N == Len(Table)
Name(n) == Table[n][1]
InDefault(n) == Table[n][2]
Opts(n) == Table[n][3]
Bare(k) == IF k = "attributes!" THEN "attributes" ELSE IF k = "attrs!" THEN "attrs" ELSE k
Must(k) == k \in {"attributes!", "attrs!"}
IsValue(n) == Opts(n)[1][1] = ""        \* configured by a value
IsSwitch(n) == Opts(n) = Switch

(* A choice for a job: options given, as a sequence of <<option number, value number>> in order. *)
Given(n, ch) == [i \in 1..Len(ch) |-> <<Bare(Opts(n)[ch[i][1]][1]), Opts(n)[ch[i][1]][2][ch[i][2]]>>]
(* What a job is when it is merely named: a switch is on, everything else has its defaults. *)
Plain(n) == CASE IsSwitch(n) -> <<<<"", "true">>>>
              [] IsValue(n)  -> <<<<"", "[]">>>>
              [] Must(Opts(n)[1][1]) -> <<<<Bare(Opts(n)[1][1]), IF Opts(n)[1][1] = "attributes!" THEN "{}" ELSE "[]">>>>
              [] OTHER       -> <<>>

Preset(p, n) ==
  CASE p = "default" -> InDefault(n)
    [] p = "safe"    -> InDefault(n) \/ Name(n) = "precheck"
    [] OTHER         -> FALSE

(* conf: [extends, jobs: sequence of <<job, options given>>, omit: set of jobs]. *)
Configured(conf, n) == \E i \in 1..Len(conf.jobs) : conf.jobs[i][1] = n
Options(conf, n) == conf.jobs[CHOOSE i \in 1..Len(conf.jobs) : conf.jobs[i][1] = n][2]
Resolve(conf) ==
  [n \in 1..N |->
     CASE n \in conf.omit -> <<Off>>
       [] Configured(conf, n) -> <<"on", Options(conf, n)>>
       [] Preset(conf.extends, n) -> <<"on", Plain(n)>>
       [] OTHER -> <<Off>>]

(* A list of plugins: each one sets its job; the preset sets all of its jobs. *)
PRESET == 0
Nowhere == 99
(* The one plugin that is two jobs here.  Its options have names of their own; each entry is what the
   list says and what that means: options of the job, and whether and how transforms are applied. *)
PathPlugin == <<
  <<"{\"floatPrecision\": 1, \"makeArcs\": {\"threshold\": 0.5}}",
    <<<<"arcCurves", "true">>, <<"tolerance", "{\"angular\": 0.001, \"positional\": 0.5, \"precision\": 1}">>>>, <<Off>>>>,
  <<"{\"removeUseless\": false, \"makeArcs\": {}}",
    <<<<"removeEmptySegments", "false">>, <<"removeZeroSegments", "false">>, <<"arcCurves", "true">>>>, <<Off>>>>,
  <<"{\"convertToZ\": true, \"collapseRepeated\": false, \"makeArcs\": {}}",
    <<<<"closeSegments", "true">>, <<"joinNodes", "false">>, <<"arcCurves", "true">>>>, <<Off>>>>,
  <<"{\"straightCurves\": false, \"smartArcRounding\": false, \"makeArcs\": false, \"applyTransforms\": false}",
    <<<<"straightCurves", "false">>, <<"arcCurves", "false">>, <<"smartArcRounding", "false">>>>, <<Off>>>>,
  <<"{\"makeArcs\": {}, \"applyTransforms\": true, \"transformPrecision\": 4.0, \"applyTransformsStroked\": true}",
    <<<<"arcCurves", "true">>>>, <<"on", <<<<"transformPrecision", "4.0">>, <<"applyTransformsStroked", "true">>>>>>>>
>>

(* A plugin: <<PRESET>>, <<Nowhere>>, <<job, "plain">>, <<job, "with", options>> or <<job, "path", entry>>. *)
Plug(set, p) ==
  CASE p[1] = PRESET -> [n \in 1..N |-> IF InDefault(n) THEN <<"on", Plain(n)>> ELSE set[n]]
    [] p[1] \in {PRESET, Nowhere} -> set
    [] p[2] = "plain" -> [n \in 1..N |->
                            IF n = p[1] \/ (Name(p[1]) = "convertPathData" /\ Name(n) = "applyTransforms")
                            THEN <<"on", Plain(n)>> ELSE set[n]]
    [] p[2] = "with" -> [set EXCEPT ![p[1]] = <<"on", p[3]>>]
    [] p[2] = "path" -> [n \in 1..N |->
                            IF n = p[1] THEN <<"on", PathPlugin[p[3]][2]>>
                            ELSE IF Name(n) = "applyTransforms" /\ PathPlugin[p[3]][3][1] = "on" THEN PathPlugin[p[3]][3]
                            ELSE set[n]]
Unknown(plugins) == \E i \in 1..Len(plugins) : plugins[i][1] = Nowhere
None == [n \in 1..N |-> <<Off>>]
RECURSIVE PlugAll(_, _)
PlugAll(set, ps) == IF ps = <<>> THEN set ELSE PlugAll(Plug(set, ps[1]), SubSeq(ps, 2, Len(ps)))
ResolveList(plugins) == PlugAll(None, plugins)

(* The jobs that run, in order. *)
Idle(n, given) == IsSwitch(n) /\ given = <<<<"", "false">>>>
Runs(set) == SelectSeq([n \in 1..N |-> n], LAMBDA n : set[n][1] = "on" /\ ~Idle(n, set[n][2]))

(* Options under which a job has nothing to do. *)
Inert(name, given) ==
  LET off(ks) == given = [i \in 1..Len(ks) |-> <<ks[i], "false">>]
  IN  CASE name = "cleanupAttrs" -> off(<<"newlines", "trim", "spaces">>)
        [] name = "removeUselessStrokeAndFill" -> off(<<"stroke", "fill", "removeNone">>)
        [] name = "removeEmptyText" -> off(<<"text", "tspan", "tref">>)
        [] name = "prefixIds" -> off(<<"prefixIds", "prefixClassNames">>)
        [] name = "cleanupIds" -> off(<<"remove", "minify">>)
        [] name = "precheck" -> off(<<"precleanChecks">>)
        [] name = "addAttributesToSVGElement" -> given = <<<<"attributes", "{}">>>>
        [] name = "removeAttributesBySelector" -> given = <<<<"", "[]">>>>
        [] name = "removeAttrs" -> given = <<<<"attrs", "[]">>>>
        [] name = "removeElementsByAttr" -> given = <<<<"id", "[]">>, <<"class", "[]">>>>
        [] OTHER -> FALSE
=============================================================================
