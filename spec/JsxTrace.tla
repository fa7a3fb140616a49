----------------------------- MODULE JsxTrace -----------------------------
(* Components written by the code, against Jsx.tla. *)
EXTENDS Jsx, Integers, Json, IOUtils
VARIABLES i, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
SetOf(x) == {x[k] : k \in DOMAIN x}
Complain(n, why, what) == PrintT("@@" \o ToJson([rec |-> n, why |-> why, what |-> what]))
Expect(ok, n, why, what) == IF ok THEN TRUE ELSE Complain(n, why, ToString(what))
Opts(o) == [o EXCEPT !.props = SetOf(@), !.replace = SetOf(@)]
RECURSIVE Tree(_)
Tree(t) == [name |-> t.name, attrs |-> {[n |-> a.n, v |-> a.v, decls |-> SetOf(a.decls)] : a \in SetOf(t.attrs)}, text |-> t.text, kids |-> [k \in DOMAIN t.kids |-> Tree(t.kids[k])]]
RECURSIVE Once(_)
Once(t) == (\A j, k \in DOMAIN t.attrs : j = k \/ t.attrs[j].n # t.attrs[k].n) /\ \A k \in DOMAIN t.kids : Once(t.kids[k])
(* the first place where two trees differ *)
RECURSIVE Diff(_, _)
Diff(a, b) == CASE a.name # b.name -> <<"name", a.name, b.name>>
  [] a.attrs # b.attrs -> <<"attributes of", a.name, a.attrs \ b.attrs, "for", b.attrs \ a.attrs>>
  [] a.text # b.text -> <<"text", a.text, "for", b.text>>
  [] Len(a.kids) # Len(b.kids) -> <<"children of", a.name, [k \in DOMAIN a.kids |-> <<a.kids[k].name, a.kids[k].text>>], "for", [k \in DOMAIN b.kids |-> <<b.kids[k].name, b.kids[k].text>>]>>
  [] OTHER -> LET at == {k \in DOMAIN a.kids : a.kids[k] # b.kids[k]} IN IF at = {} THEN <<>> ELSE LET k == CHOOSE x \in at : TRUE IN Diff(a.kids[k], b.kids[k])
(* r: [doc, opts, read, got]; got: [tree, given, rest, spread, ref, wrapped, named, alias, imported] *)
Check(n) ==
  LET r == Recs[n]
      o == Opts(r.opts)
      want == Component(r.doc, o)
      g == r.got
  IN Expect(r.read = "", n, "what was written cannot be read", r.read) /\
     (r.read = "" =>
      /\ Expect(Tree(g.tree) = want.tree, n, "the tree differs", Diff(Tree(g.tree), want.tree))
      /\ Expect(Once(g.tree), n, "an attribute is given twice", "")
      /\ Expect(SetOf(g.given) = want.given /\ g.rest = want.rest, n, "the properties differ", <<g.given, g.rest>>)
      /\ Expect(g.spread = want.spread, n, "the properties are passed elsewhere", g.spread)
      /\ Expect(g.ref = want.ref, n, "the reference differs", g.ref)
      /\ Expect(g.wrapped = want.wrapped, n, "the component is wrapped otherwise", g.wrapped)
      /\ Expect(g.named = want.named /\ g.alias = want.alias, n, "the export differs", <<g.named, g.alias>>)
      /\ Expect(Needs(r.doc, o) \subseteq SetOf(g.imported), n, "something is not imported", <<Needs(r.doc, o), g.imported>>))
Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
