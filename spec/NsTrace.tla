------------------------------ MODULE NsTrace -------------------------------
(* Validates outputs of the optimiser: all names are bound, and every name that  *)
(* is left means what it meant in the input.                                    *)
EXTENDS Xml, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
SVG == "http://www.w3.org/2000/svg"
XLINK == "http://www.w3.org/1999/xlink"

Elems(d) == {e \in DOMAIN d.nodes : d.nodes[e].k = "e"}
Name(d, e) == <<Uri(d, e, d.nodes[e].px), d.nodes[e].l>>
Names(d) == {Name(d, e) : e \in Elems(d)}
Count(d, n) == Cardinality({e \in Elems(d) : Name(d, e) = n})
Atts(d) == UNION {Attrs(d, e) : e \in Elems(d)}
\* prefixes with what they mean where they are declared
Decls(d) == UNION {{<<IF a.n = "xmlns" THEN "" ELSE a.l, a.v>> : a \in {d.nodes[e].at[k] : k \in {q \in DOMAIN d.nodes[e].at : IsDecl(d.nodes[e].at[q])}}} : e \in Elems(d)}
Used(d) == UNION {{<<d.nodes[e].px, Uri(d, e, d.nodes[e].px)>>} \cup {<<a.px, AttUri(d, e, a)>> : a \in {d.nodes[e].at[k] : k \in {q \in DOMAIN d.nodes[e].at : ~IsDecl(d.nodes[e].at[q]) /\ d.nodes[e].at[q].px # ""}}} : e \in Elems(d)}

\* elements that jobs make
Made == {<<SVG, n>> : n \in {"path", "circle", "defs", "use", "style"}}
Refuse(a, why, x) == PrintT("@@" \o ToJson([rec |-> i, after |-> a, why |-> why, what |-> ToString(x)]))
Must(a, bad, why) == IF bad = {} THEN TRUE ELSE Refuse(a, why, bad)
CheckOne(r, a) ==
  LET b == r.before
      d == r.after[a].doc
      job == r.after[a].job
      names == Names(b)
      atts == Atts(b)
      links == job \in {"reusePaths", "everything"}
      linkless == job \in {"removeXlink", "everything"}
      adds == job = "addAttributesToSVGElement"
      decls == Decls(b) \cup Used(b) \cup {<<"xml", "http://www.w3.org/XML/1998/namespace">>, <<"", "">>}
  IN IF job = "removeXMLNS" THEN TRUE
     ELSE /\ IF Bound(d) THEN TRUE ELSE Refuse(a, "a prefix is not declared or an attribute repeated", "")
          /\ Must(a, {p \in Used(d) : p \notin decls /\ ~(links /\ p = <<"xlink", XLINK>>)}, "prefixes mean something else")
          /\ Must(a, ((Names(d) \ names) \ Made) \ (IF linkless THEN {<<SVG, "title">>} ELSE {}), "elements in another namespace")
          /\ Must(a, {n \in Names(d) : n[1] # SVG /\ Count(d, n) > Count(b, n)}, "more elements than there were")
          /\ Must(a, {x \in Atts(d) : x[1] # "" /\ (\A y \in atts : <<y[1], y[2]>> # <<x[1], x[2]>>) /\ ~(links /\ x[1] = XLINK)}, "attributes in another namespace")
          /\ Must(a, {x \in Atts(d) : x[1] = "" /\ x \notin atts /\ (\E y \in atts : y[1] # "" /\ <<y[2], y[3]>> = <<x[2], x[3]>>) /\ ~(linkless /\ <<XLINK, x[2], x[3]>> \in atts)}, "attributes left their namespace")
Check(r) == \A a \in DOMAIN r.after : CheckOne(r, a)

Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(Recs[i]) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
