-------------------------------- MODULE Css --------------------------------
(* Selectors, specificity, the cascade, inheritance.                           *)
(* A document d: d.nodes (1 is the document, preorder), d.rules.               *)
(* env: the set of conditions that hold (media queries, :hover and the like);  *)
(* "anim" holds while the animations of the document run.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

IsElem(d, e) == e > 0 /\ d.nodes[e].k = "e"
ParEl(d, e) == LET p == d.nodes[e].par IN IF IsElem(d, p) THEN p ELSE 0
ElemKids(d, e) == SelectSeq(d.nodes[e].kids, LAMBDA k : d.nodes[k].k = "e")
Siblings(d, e) == ElemKids(d, d.nodes[e].par)
PlaceOf(d, e) == LET s == Siblings(d, e) IN CHOOSE i \in DOMAIN s : s[i] = e

Structural == {":first-child", ":last-child", ":only-child", ":empty", ":root", ":first-of-type", ":last-of-type", ":only-of-type"}

Within(needle, hay) == \E i \in 0..(Len(hay) - Len(needle)) : SubSeq(hay, i + 1, i + Len(needle)) = needle

\* place is a*n + b for some n >= 0
Nth(a, b, place) == \E n \in 0..place + 20 : a * n + b = place

RECURSIVE MatchAt(_, _, _, _, _)
MatchPart(d, env, e, q) ==
  LET n == d.nodes[e]
      has == q.a \in DOMAIN n.raw
      val == n.raw[q.a]
      sib == Siblings(d, e)
      same == SelectSeq(sib, LAMBDA s : d.nodes[s].n = n.n)
  IN CASE q.k = "any" -> TRUE
       [] q.k = "type" -> n.n = q.a
       [] q.k = "id" -> n.id = q.a
       [] q.k = "class" -> \E i \in DOMAIN n.cls : n.cls[i] = q.a
       [] q.k = "attr" -> has
       [] q.k = "attr=" -> has /\ val = q.b
       [] q.k = "attr~=" -> has /\ q.b # "" /\ ~Within(" ", q.b) /\ Within(" " \o q.b \o " ", " " \o val \o " ")
       [] q.k = "attr|=" -> has /\ (val = q.b \/ (Len(val) > Len(q.b) /\ SubSeq(val, 1, Len(q.b) + 1) = q.b \o "-"))
       [] q.k = "attr^=" -> has /\ q.b # "" /\ Len(val) >= Len(q.b) /\ SubSeq(val, 1, Len(q.b)) = q.b
       [] q.k = "attr$=" -> has /\ q.b # "" /\ Len(val) >= Len(q.b) /\ SubSeq(val, Len(val) - Len(q.b) + 1, Len(val)) = q.b
       [] q.k = "attr*=" -> has /\ q.b # "" /\ Len(val) >= Len(q.b) /\ Within(q.b, val)
       [] q.k = "not" -> \A i \in DOMAIN q.in : ~MatchAt(d, env, e, q.in[i], 1)
       [] q.k \in {"is", "where"} -> \E i \in DOMAIN q.in : MatchAt(d, env, e, q.in[i], 1)
       [] q.k = "nth" ->
            LET row == IF q.a \in {"child", "last-child"} THEN sib ELSE same
                at == CHOOSE i \in DOMAIN row : row[i] = e
                place == IF q.a \in {"child", "of-type"} THEN at ELSE Len(row) - at + 1
            IN Nth(q.v[1], q.v[2], place)
       [] q.k = "pseudo" /\ q.a = ":only-of-type" -> Len(same) = 1
       [] q.k = "pseudo" /\ q.a = ":first-child" -> sib[1] = e
       [] q.k = "pseudo" /\ q.a = ":last-child" -> sib[Len(sib)] = e
       [] q.k = "pseudo" /\ q.a = ":only-child" -> Len(sib) = 1
       [] q.k = "pseudo" /\ q.a = ":first-of-type" -> same[1] = e
       [] q.k = "pseudo" /\ q.a = ":last-of-type" -> same[Len(same)] = e
       [] q.k = "pseudo" /\ q.a = ":empty" -> \A i \in DOMAIN n.kids : d.nodes[n.kids[i]].k \notin {"e", "t"}
       [] q.k = "pseudo" /\ q.a = ":root" -> ParEl(d, e) = 0
       [] q.k = "pseudo" -> q.a \in env

\* sel[i] and everything to its left, matched at e
MatchAt(d, env, e, sel, i) ==
  /\ \A j \in DOMAIN sel[i].parts : MatchPart(d, env, e, sel[i].parts[j])
  /\ i < Len(sel) =>
       LET c == sel[i].comb
           sib == Siblings(d, e)
           at == PlaceOf(d, e)
           RECURSIVE Up(_)
           Up(a) == a # 0 /\ (MatchAt(d, env, a, sel, i + 1) \/ Up(ParEl(d, a)))
       IN CASE c = ">" -> ParEl(d, e) # 0 /\ MatchAt(d, env, ParEl(d, e), sel, i + 1)
            [] c = " " -> Up(ParEl(d, e))
            [] c = "+" -> at > 1 /\ MatchAt(d, env, sib[at - 1], sel, i + 1)
            [] c = "~" -> \E j \in 1..(at - 1) : MatchAt(d, env, sib[j], sel, i + 1)

Matches(d, env, e, sel) == MatchAt(d, env, e, sel, 1)

RECURSIVE SpecOf(_)
PartWeight(q) ==
  CASE q.k = "id" -> 10000
    [] q.k = "class" -> 100
    [] q.k \in {"any", "where"} -> 0
    [] q.k = "type" -> 1
    [] q.k \in {"not", "is"} -> LET ws == {SpecOf(q.in[i]) : i \in DOMAIN q.in} IN CHOOSE w \in ws : \A v \in ws : v <= w
    [] q.k = "pseudo" -> IF Len(q.a) > 2 /\ SubSeq(q.a, 1, 2) = "::" THEN 1 ELSE 100
    [] OTHER -> 100
SpecOf(sel) == FoldLeft(LAMBDA w, c : FoldLeft(LAMBDA v, q : v + PartWeight(q), w, c.parts), 0, sel)

\* conditions a document's rendering can depend on
RECURSIVE SelConds(_)
SelConds(sel) == UNION {UNION {LET q == sel[i].parts[j] IN
                                IF q.k = "pseudo" /\ q.a \notin Structural THEN {q.a}
                                ELSE UNION {SelConds(q.in[k]) : k \in DOMAIN q.in} : j \in DOMAIN sel[i].parts} : i \in DOMAIN sel}
Conds(d) == UNION {SelConds(d.rules[r].sel) \cup (IF d.rules[r].cond = "" THEN {} ELSE {d.rules[r].cond}) : r \in DOMAIN d.rules}
            \cup (IF \E e \in DOMAIN d.nodes : d.nodes[e].k = "e" /\ d.nodes[e].anim # <<>> THEN {"anim"} ELSE {})

(* ------------------------------- cascade -------------------------------- *)
\* all declarations that apply to e, with their rank
Applying(d, env, e) ==
  LET n == d.nodes[e]
      imp(x) == IF x.i THEN 1000000000 ELSE 0
  IN {[p |-> p, r |-> 0, v |-> n.pres[p]] : p \in DOMAIN n.pres}
     \cup UNION {LET rule == d.rules[r] IN
                 IF (rule.cond = "" \/ rule.cond \in env) /\ Matches(d, env, e, rule.sel)
                 THEN LET w == SpecOf(rule.sel) IN
                      {[p |-> rule.decls[j].p, r |-> imp(rule.decls[j]) + 1 + w * 1000 + r * 20 + j, v |-> rule.decls[j].v] : j \in DOMAIN rule.decls}
                 ELSE {} : r \in DOMAIN d.rules}
     \cup (IF "anim" \in env THEN {[p |-> n.anim[j].p, r |-> 900000000 + j, v |-> n.anim[j].v] : j \in DOMAIN n.anim} ELSE {})
     \cup {[p |-> n.inl[j].p, r |-> imp(n.inl[j]) + 500000000 + j, v |-> n.inl[j].v] : j \in DOMAIN n.inl}

\* the declared value of every property that has one
Cascaded(d, env, e) ==
  LET all == Applying(d, env, e)
  IN [p \in {a.p : a \in all} |-> (CHOOSE a \in all : a.p = p /\ \A b \in all : b.p = p => b.r <= a.r).v]

S(x) == <<"s", x>>
N(x) == <<"n", x>>
Black == <<"c", "000000ff">>
Initial == [
  fill |-> Black, stroke |-> S("none"), color |-> Black,
  opacity |-> N(1000), display |-> S("inline"), visibility |-> S("visible"), overflow |-> S("visible"),
  cursor |-> S("auto"), mask |-> S("none"), filter |-> S("none"), isolation |-> S("auto"), direction |-> S("ltr"), clip |-> S("auto")]
  @@ ("fill-opacity" :> N(1000)) @@ ("stroke-opacity" :> N(1000)) @@ ("stroke-width" :> N(1000))
  @@ ("stroke-linecap" :> S("butt")) @@ ("stroke-linejoin" :> S("miter")) @@ ("stroke-miterlimit" :> N(4000))
  @@ ("stroke-dasharray" :> <<"l", <<>>>>) @@ ("stroke-dashoffset" :> N(0))
  @@ ("fill-rule" :> S("nonzero")) @@ ("clip-rule" :> S("nonzero"))
  @@ ("clip-path" :> S("none")) @@ ("marker-start" :> S("none")) @@ ("marker-mid" :> S("none")) @@ ("marker-end" :> S("none"))
  @@ ("stop-color" :> Black) @@ ("stop-opacity" :> N(1000)) @@ ("flood-color" :> Black) @@ ("flood-opacity" :> N(1000))
  @@ ("lighting-color" :> <<"c", "ffffffff">>)
  @@ ("paint-order" :> S("normal")) @@ ("vector-effect" :> S("none")) @@ ("mix-blend-mode" :> S("normal"))
  @@ ("shape-rendering" :> S("auto")) @@ ("text-rendering" :> S("auto")) @@ ("image-rendering" :> S("auto")) @@ ("color-rendering" :> S("auto"))
  @@ ("color-interpolation" :> S("srgb")) @@ ("color-interpolation-filters" :> S("linearrgb")) @@ ("pointer-events" :> S("visiblepainted"))
  @@ ("font-family" :> S("")) @@ ("font-weight" :> S("400")) @@ ("font-style" :> S("normal")) @@ ("font-variant" :> S("normal"))
  @@ ("font-size" :> S("medium")) @@ ("font-stretch" :> S("normal")) @@ ("text-anchor" :> S("start")) @@ ("dominant-baseline" :> S("auto"))
  @@ ("alignment-baseline" :> S("auto")) @@ ("baseline-shift" :> S("baseline")) @@ ("text-decoration" :> S("none"))
  @@ ("unicode-bidi" :> S("normal")) @@ ("writing-mode" :> S("lr-tb"))
  @@ ("letter-spacing" :> S("normal")) @@ ("word-spacing" :> S("normal")) @@ ("enable-background" :> S("accumulate"))

NotInherited == {"opacity", "display", "overflow", "mask", "filter", "isolation", "clip-path", "stop-color", "stop-opacity",
                 "flood-color", "flood-opacity", "lighting-color", "vector-effect", "mix-blend-mode", "alignment-baseline",
                 "baseline-shift", "text-decoration", "unicode-bidi", "dominant-baseline", "clip", "enable-background"}
Known == DOMAIN Initial

Get(st, p) == IF p \in DOMAIN st THEN st[p] ELSE Initial[p]

\* computed values of an element whose declared values are decl, below a parent with computed values up;
\* only values that differ from the initial one are kept
Computed(decl, up) ==
  LET val(p) == IF p \in DOMAIN decl
                THEN (IF decl[p] = S("inherit") \/ (p = "color" /\ decl[p] = S("currentcolor")) THEN Get(up, p) ELSE decl[p])
                ELSE IF p \in NotInherited THEN Initial[p] ELSE Get(up, p)
      ps == {p \in (DOMAIN decl \cup DOMAIN up) \cap Known : val(p) # Initial[p]}
  IN [p \in ps |-> val(p)]
=============================================================================
