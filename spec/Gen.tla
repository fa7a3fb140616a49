-------------------------------- MODULE Gen --------------------------------
(* Documents grow: a skeleton of elements receives decorations (attributes,     *)
(* style rules), each at most once per place, in a fixed order so that every    *)
(* set of decorations is reached once.  TLC enumerates all of them up to a      *)
(* bound, or walks to larger ones in simulation.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxDecs, Family
VARIABLES skel, decs, last

El(n, at, kids) == [n |-> n, at |-> at, kids |-> kids]
A(n, v) == [a |-> n, v |-> v]

Dec(e, a, v) == [e |-> e, a |-> a, v |-> v]

\* every value of every attribute in a table <<attribute, values>>, at each of the elements es
Table(es, rows) ==
  LET per(e, r) == [i \in 1..Len(rows[r][2]) |-> Dec(e, rows[r][1], rows[r][2][i])]
      RECURSIVE Rows(_, _)
      Rows(e, r) == IF r > Len(rows) THEN <<>> ELSE per(e, r) \o Rows(e, r + 1)
      RECURSIVE Els(_)
      Els(k) == IF k > Len(es) THEN <<>> ELSE Rows(es[k], 1) \o Els(k + 1)
  IN Els(1)
RulesTable(rules) == [i \in 1..Len(rules) |-> Dec(0, "rule", rules[i])]

\* two decorations fit together: not the same attribute of the same element (rules always do), no id twice
Fits(d, ds) == d.e = 0 \/ \A k \in DOMAIN ds : ds[k].a # d.a \/ (ds[k].e # d.e /\ (d.a = "id" => ds[k].v # d.v))
=============================================================================
