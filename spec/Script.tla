------------------------------- MODULE Script -------------------------------
(* Documents a script may look into, and what the jobs that reason about what   *)
(* is used have to leave as it is in them.  Documents are projected from text:  *)
(* d.nodes (1 is the document, preorder), d.rules.                              *)
EXTENDS Integers, Sequences, TLC

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Elems(d) == {e \in DOMAIN d.nodes : d.nodes[e].k = "e"}

\* code of its own, a handler of an event, or a link that runs code
Scripted(d) == \E e \in Elems(d) :
  LET n == d.nodes[e] IN
  \/ n.n = "script"
  \/ \E a \in DOMAIN n.raw : Starts(a, "on")
  \/ n.n = "a" /\ \E a \in DOMAIN n.raw \cap {"href", "xlink:href"} : Starts(n.raw[a], "javascript:")
Styled(d) == \E e \in Elems(d) : d.nodes[e].n = "style"

Same(x, y) == /\ x.rules = y.rules
              /\ Len(x.nodes) = Len(y.nodes)
              /\ \A e \in DOMAIN x.nodes : LET a == x.nodes[e] b == y.nodes[e] IN
                   a.k = b.k /\ a.n = b.n /\ a.par = b.par /\ (a.k = "e" => a.raw = b.raw)

RulesOf(d) == {[sel |-> d.rules[r].sel, cond |-> d.rules[r].cond, decls |-> d.rules[r].decls] : r \in DOMAIN d.rules}
\* what only paints where something refers to it
Library == {"linearGradient", "radialGradient", "clipPath", "mask", "marker", "pattern", "symbol", "filter"}
Named(d, ns) == {<<d.nodes[e].n, d.nodes[e].id>> : e \in {e \in Elems(d) : d.nodes[e].n \in ns /\ d.nodes[e].id # ""}}

\* x: the document as written without any job, y: as written after the job
Respected(job, x, y) ==
  CASE job = "cleanup_ids" -> (Scripted(x) \/ Styled(x)) => Same(x, y)
    [] job = "remove_useless_stroke_and_fill" -> (Scripted(x) \/ Styled(x)) => Same(x, y)
    [] job = "minify_styles" -> Scripted(x) => RulesOf(x) = RulesOf(y)
    [] job = "remove_hidden_elems" -> (Scripted(x) \/ Styled(x)) => Named(x, Library) = Named(y, Library)
=============================================================================
