------------------------------ MODULE GenLint ------------------------------
(* Documents for the linter: every child in every parent, every value of every attribute on every element, every way of
   declaring and using a prefix over a chain of three elements, every way of referring to an id, every severity for every rule. *)
EXTENDS Lint, Json
CONSTANTS Part
VARIABLES doc, n, stop

A(k, v) == [k |-> k, p |-> CASE k \in XLinks \cup {"xlink:foo"} -> "xlink" [] k = "e:a" -> "e" [] k = "f:a" -> "f" [] k \in Universal -> "xml" [] OTHER -> "", v |-> v, ref |-> "", of |-> ""]
R(k, v, id) == [A(k, v) EXCEPT !.ref = id]
D(p, uri) == IF p = "" THEN [A("xmlns", uri) EXCEPT !.of = ""] ELSE [k |-> "xmlns:" \o p, p |-> "xmlns", v |-> uri, ref |-> "", of |-> p]
N(k, parent, attrs) == [k |-> k, p |-> CASE k = "e:g" -> "e" [] k = "f:g" -> "f" [] OTHER -> "", parent |-> parent, attrs |-> attrs, css |-> <<>>]
Root(more) == N("svg", 0, <<D("", SVG), D("xlink", XLINK), D("e", "urn:e")>> \o more)
Emit(d, rules) == PrintT("@@" \o ToJson([doc |-> d, rules |-> rules]))
AnyRules == [r \in RuleNames |-> "any"]

Kinds == Elements \cup {"foo", "e:g"}
Children == {<<Root(<<>>), N(p, 1, <<>>), N(c, 2, <<>>)>> : p \in Kinds, c \in Kinds}
AttrOf(v) == A(v.k, v.v)
OnElems == Aimed \cup {"foo", "e:g"}
Single == {<<Root(<<>>), N(e, 1, <<AttrOf(v)>>)>> : e \in OnElems, v \in Values}
          \cup {<<Root(<<AttrOf(v)>>)>> : v \in Values}

(* references *)
RefAttrs(id) == {R("fill", "url(#" \o id \o ")", id), R("clip-path", "url(#" \o id \o ")", id), R("style", "mask:url(#" \o id \o ")", id), R("filter", "url(#" \o id \o ")", id), R("aria-labelledby", id, id), R("stroke", "url('#" \o id \o "') red", id),
                 A("foo", "#" \o id), A("class", id), R("mask", "url(#" \o id \o ")", id)}
RefNode(id) == {N("rect", 1, <<a>>) : a \in RefAttrs(id)} \cup {N(e, 1, <<R(k, "#" \o id, id)>>) : e \in {"use", "a", "linearGradient"}, k \in {"href", "xlink:href"}}
               \cup {[N("style", 1, <<>>) EXCEPT !.css = <<[how |-> h, id |-> id]>>] : h \in {"sel", "not", "desc", "url", "media"}}
               \cup {N("animate", 1, <<R("begin", id \o ".click", id)>>)}
Scripts == {<<>>, <<N("script", 1, <<>>)>>, <<N("rect", 1, <<A("onclick", "f()")>>)>>, <<N("a", 1, <<A("href", "javascript:f()")>>)>>, <<N("e:g", 1, <<>>)>>, <<N("style", 1, <<>>)>>}
IdDocs == {<<Root(<<>>), N("g", 1, <<A("id", "a")>>), r>> \o s : r \in RefNode("a") \cup RefNode("b"), s \in Scripts}
          \cup {<<Root(<<>>), N("g", 1, <<A("id", "a")>>), N("g", 2, <<A("id", "b")>>), r>> : r \in RefNode("a") \cup RefNode("b") \cup RefNode("c")}
          \cup {<<Root(<<A("id", "a")>>), [r EXCEPT !.attrs = @ \o <<A("id", "b")>>]>> : r \in {q \in RefNode("a") \cup RefNode("b") : q.k # "animate"}}

(* prefixes *)
DeclSets == {<<>>, <<D("e", "urn:e")>>, <<D("f", "urn:f")>>, <<D("e", "urn:e2")>>, <<D("e", "urn:e"), D("f", "urn:f")>>, <<D("", "urn:d")>>, <<D("xlink", XLINK)>>, <<D("", "urn:d"), D("f", "urn:f")>>}
NsDocs == {<<N("svg", 0, <<D("", SVG)>> \o d1 \o u1), N(k2, 1, d2 \o u2), N(k3, 2, d3 \o u3)>> :
             d1 \in {d \in DeclSets : ~(\E i \in DOMAIN d : d[i].k = "xmlns")}, d2 \in DeclSets, d3 \in {<<>>, <<D("e", "urn:e2")>>, <<D("e", "urn:e")>>, <<D("", SVG)>>},
             u1 \in {<<>>, <<A("e:a", "1")>>}, k2 \in {"g", "e:g"}, u2 \in {<<>>, <<A("f:a", "1")>>, <<A("xlink:title", "t")>>}, k3 \in {"g", "e:g", "f:g"}, u3 \in {<<>>, <<A("e:a", "1")>>}}
(* every prefix in use is declared *)
Sound(d) == \A u \in UNION {UsedBy(d, m) : m \in DOMAIN d} : u[2] = "xml" \/ InForce(d, u[1], u[2])[1] # 0
(* no namespace under two prefixes at once *)
Single1(d) == \A m \in DOMAIN d : \A x, y \in Decls(d) : (x[1] \in Above(d, m) /\ y[1] \in Above(d, m) /\ d[x[1]].attrs[x[2]].v = d[y[1]].attrs[y[2]].v) => Declared(d[x[1]].attrs[x[2]]) = Declared(d[y[1]].attrs[y[2]])

(* one problem for each rule, and every severity *)
Rich == <<Root(<<D("f", "urn:f"), A("version", "1.0")>>), N("rect", 1, <<A("id", "a"), A("fill", "12zz"), A("opacity", "1"), A("foo", "1"), A("xlink:title", "t")>>), N("stop", 2, <<>>)>>
Docs == CASE Part = "children" -> Children [] Part = "values" -> Single [] Part = "ids" -> IdDocs [] Part = "prefixes" -> {d \in NsDocs : Sound(d) /\ Single1(d)} [] OTHER -> {}

(* larger documents at random *)
Pick(S) == {RandomElement(S)}
Attrs == {AttrOf(v) : v \in Values} \cup {A("id", "a"), A("id", "b"), A("id", "c"), D("e", "urn:e2"), D("f", "urn:f"), A("f:a", "1")} \cup UNION {RefAttrs(id) : id \in {"a", "b"}} \cup {R("xlink:href", "#a", "a"), R("href", "#b", "b")}
HasKey(as, k) == \E i \in DOMAIN as : as[i].k = k
Fits(d, m, a) == /\ ~HasKey(d[m].attrs, a.k) /\ Len(d[m].attrs) < 7
                 /\ (a.k = "id" => a.v \notin Ids(d))
                 /\ (~(d[m].k \in Aimed \cup {"foo", "e:g"}) => (a.k = "id" \/ IsDecl(a)))
Init == doc = <<Root(<<>>)>> /\ n = 0 /\ stop = FALSE
GrowNode == \E p \in Pick(DOMAIN doc), k \in Pick((Elements \ {"script"}) \cup {"foo", "e:g"}) :
              IF doc[p].k \in {"style"} THEN UNCHANGED doc ELSE doc' = Append(doc, N(k, p, <<>>))
GrowAttr == \E m \in Pick(DOMAIN doc), a \in Pick(Attrs) : doc' = IF Fits(doc, m, a) THEN [doc EXCEPT ![m].attrs = Append(@, a)] ELSE doc
Next ==
  IF Part = "rows" THEN
    \/ /\ n < 18 /\ n' = n + 1 /\ stop' = FALSE
       /\ IF n % 3 = 0 THEN GrowNode ELSE GrowAttr
    \/ /\ n = 18 /\ (IF Sound(doc) /\ Single1(doc) THEN Emit(doc, AnyRules) ELSE TRUE) /\ n' = 19 /\ stop' = TRUE /\ UNCHANGED doc
  ELSE IF Part = "severities" THEN
    n = 0 /\ \E r \in [RuleNames -> Severities] : Emit(Rich, r) /\ n' = 1 /\ UNCHANGED <<doc, stop>>
  ELSE n = 0 /\ \E d \in Docs : Emit(d, AnyRules) /\ n' = 1 /\ UNCHANGED <<doc, stop>>
Spec == Init /\ [][Next]_<<doc, n, stop>>
=============================================================================
