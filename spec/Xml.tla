-------------------------------- MODULE Xml ---------------------------------
(* What a document says, independently of how it is written: names in their     *)
(* namespaces, attribute values, character data, comments and instructions,     *)
(* with the white space that matters under the writer's options.                *)
(* Read by qualified names: attributes are records n, v, px, l; text nodes have  *)
(* their words and whether white space stands at either end.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

RECURSIVE Uri(_, _, _)
Uri(d, e, px) ==
  IF px = "xml" THEN "http://www.w3.org/XML/1998/namespace"
  ELSE IF e <= 1 THEN (IF px = "" THEN "" ELSE "undeclared")
  ELSE LET c == SelectSeq(d.nodes[e].at, LAMBDA a : IF px = "" THEN a.n = "xmlns" ELSE a.px = "xmlns" /\ a.l = px)
       IN IF c # <<>> THEN c[1].v ELSE Uri(d, d.nodes[e].par, px)
IsDecl(a) == a.n = "xmlns" \/ a.px = "xmlns"
AttUri(d, e, a) == IF a.px = "" THEN "" ELSE Uri(d, e, a.px)
Attrs(d, e) == {<<AttUri(d, e, a), a.l, a.v>> : a \in {d.nodes[e].at[i] : i \in {k \in DOMAIN d.nodes[e].at : ~IsDecl(d.nodes[e].at[k])}}}

\* every name that is written with a prefix has it declared, and no attribute is there twice
Bound(d) == \A e \in DOMAIN d.nodes : d.nodes[e].k = "e" =>
  /\ Uri(d, e, d.nodes[e].px) # "undeclared"
  /\ \A i \in DOMAIN d.nodes[e].at : ~IsDecl(d.nodes[e].at[i]) => AttUri(d, e, d.nodes[e].at[i]) # "undeclared"
  /\ Cardinality({<<x[1], x[2]>> : x \in Attrs(d, e)}) = Cardinality({i \in DOMAIN d.nodes[e].at : ~IsDecl(d.nodes[e].at[i])})

RECURSIVE Preserved(_, _), InText(_, _), Path(_, _)
Preserved(d, e) ==
  IF e <= 1 THEN FALSE
  ELSE LET c == SelectSeq(d.nodes[e].at, LAMBDA a : a.n = "xml:space") IN
       IF c # <<>> /\ c[1].v \in {"preserve", "default"} THEN c[1].v = "preserve" ELSE Preserved(d, d.nodes[e].par)
InText(d, e) == e > 1 /\ (d.nodes[e].l = "text" \/ InText(d, d.nodes[e].par))
Path(d, e) == IF e <= 1 THEN "" ELSE Path(d, d.nodes[e].par) \o "/" \o d.nodes[e].n

\* how the white space of a text node counts
Mode(d, e, o) ==
  IF o.indent THEN (IF o.strict /\ InText(d, e) THEN "edges" ELSE "words")
  ELSE CASE o.space = "never" -> "exact"
         [] o.space = "preserve" -> "spaces"
         [] o.space = "auto" /\ Preserved(d, e) -> "spaces"
         [] InText(d, e) -> "edges"
         [] OTHER -> "words"
Join(ws) == FoldLeft(LAMBDA acc, w : IF acc = "" THEN w ELSE acc \o " " \o w, "", ws)
Text(d, k, o) ==
  LET n == d.nodes[k]
      row == d.nodes[n.par].kids
      mode == Mode(d, n.par, o)
      first == row[1] = k
      last == row[Len(row)] = k
  IN CASE mode = "exact" -> n.t
       [] mode = "spaces" -> n.ts
       [] mode = "words" -> Join(n.words)
       [] n.words = <<>> -> (IF first \/ last THEN "" ELSE " ")
       [] OTHER -> (IF n.lead /\ ~first THEN " " ELSE "") \o Join(n.words) \o (IF n.trail /\ ~last THEN " " ELSE "")

RECURSIVE Says(_, _, _)
Says(d, e, o) ==
  LET n == d.nodes[e]
      kids == FoldLeft(LAMBDA acc, k : acc \o Says(d, k, o), <<>>, n.kids)
  IN CASE n.k = "t" -> (LET s == Text(d, e, o) IN IF s = "" THEN <<>> ELSE <<<<"text", s>>>>)
       [] n.k = "c" -> <<<<"comment", n.t>>>>
       [] n.k = "p" -> (IF n.n = "xml" THEN <<>> ELSE <<<<"instruction", n.n, n.t>>>>)
       [] n.k = "s" -> <<<<"style", n.t>>>>
       [] n.k = "y" -> <<>>
       [] n.k = "d" -> kids
       [] OTHER -> <<<<"element", Uri(d, e, n.px), n.l, Attrs(d, e), kids>>>>
=============================================================================
