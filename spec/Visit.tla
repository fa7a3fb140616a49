------------------------------- MODULE Visit --------------------------------
(* Walking a document: what a visitor is shown, in order, when its hooks may    *)
(* skip, cut, extend or fail.  Nodes are in document order below the document,   *)
(* which is 0; the root element is one of them.                                  *)
EXTENDS Integers, Sequences, FiniteSets

IsElem(n) == n.k \in {"svg", "g", "foreignObject", "style"}
Below(t, p) == LET f[i \in 0..Len(t)] == IF i = 0 THEN <<>> ELSE IF t[i].p = p THEN Append(f[i - 1], i) ELSE f[i - 1] IN f[Len(t)]
Hook(k) == CASE k = "text" -> "text" [] k = "comment" -> "comment" [] k = "pi" -> "instruction" [] k = "css" -> "style"
Does(script, at, n) == IF n \in DOMAIN script[at] THEN script[at][n] ELSE <<>>
Where(foreign) == IF foreign THEN "in" ELSE "out"
Made(i) == "n" \o (<<"1", "2", "3", "4", "5", "6", "7", "8", "9">>)[i]
Upto(effects) == IF \E k \in DOMAIN effects : effects[k] = "fail" THEN SubSeq(effects, 1, (CHOOSE k \in DOMAIN effects : effects[k] = "fail" /\ \A j \in 1..(k - 1) : effects[j] # "fail") - 1) ELSE effects
Fails(effects) == \E k \in DOMAIN effects : effects[k] = "fail"
Skips(effects) == \E k \in DOMAIN effects : effects[k] = "skip"

(* children as a sequence of numbers of nodes (positive) and of made elements    *)
(* (negative), after the effects e; made counts the elements made so far         *)
RECURSIVE After(_, _, _)
After(kids, e, made) ==
  IF e = <<>> THEN [kids |-> kids, made |-> made]
  ELSE LET h == e[1] rest == SubSeq(e, 2, Len(e)) IN
    CASE h = "clear" -> After(<<>>, rest, made)
      [] h = "behead" -> After(IF kids = <<>> THEN kids ELSE SubSeq(kids, 2, Len(kids)), rest, made)
      [] h = "add" -> After(Append(kids, -(made + 1)), rest, made + 1)
      [] h = "before" -> After(<<-(made + 1)>> \o kids, rest, made + 1)
      [] OTHER -> After(kids, rest, made)

(* a walk: events so far, whether it goes on, elements made                      *)
RECURSIVE Node(_, _, _, _, _), List(_, _, _, _, _)
Node(t, script, i, foreign, w) ==
  IF i < 0 THEN [w EXCEPT !.ev = w.ev \o << <<"element", Made(-i), Where(foreign)>>, <<"exit_element", Made(-i), Where(foreign)>> >>]
  ELSE IF ~IsElem(t[i])
  THEN [w EXCEPT !.ev = Append(w.ev, <<Hook(t[i].k), t[i].n, IF t[i].k = "pi" THEN Where(foreign) ELSE "?">>)]
  ELSE
    LET inside == foreign \/ t[i].k = "foreignObject"
        e == Does(script, "start", t[i].n)
        a == After(Below(t, i), Upto(e), w.made)
        w1 == [ev |-> Append(w.ev, <<"element", t[i].n, Where(inside)>>), ok |-> ~Fails(e), made |-> a.made]
        w2 == IF Skips(e) \/ ~w1.ok THEN w1 ELSE List(t, script, a.kids, inside, w1)
        x == Does(script, "end", t[i].n)
        b == After(<<>>, Upto(x), w2.made)
    IN IF ~w2.ok THEN w2
       ELSE [ev |-> Append(w2.ev, <<"exit_element", t[i].n, Where(inside)>>), ok |-> ~Fails(x), made |-> b.made]
List(t, script, kids, foreign, w) ==
  IF kids = <<>> \/ ~w.ok THEN w ELSE List(t, script, SubSeq(kids, 2, Len(kids)), foreign, Node(t, script, kids[1], foreign, w))
Walk(t, script) ==
  IF script.prepare # "" THEN [ev |-> <<>>, ok |-> script.prepare # "fail", made |-> 0]
  ELSE LET w == List(t, script, Below(t, 0), FALSE, [ev |-> << <<"document", "", "out">> >>, ok |-> TRUE, made |-> 0])
       IN IF w.ok THEN [w EXCEPT !.ev = Append(w.ev, <<"exit_document", "", "out">>)] ELSE w
=============================================================================
