------------------------------ MODULE Actions -------------------------------
(* The editing session: a drawing, a selection, the history of actions, and     *)
(* whether the document carries the state.  Actions are sequences of strings.   *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- the drawing: nodes in document order, node i has the id i; p is 0 for   *)
(* the root element                                                             *)
Elems(d) == {i \in DOMAIN d : d[i].n # "#text"}
Kids(d, p) == {i \in DOMAIN d : d[i].p = p}
ElKids(d, p) == Kids(d, p) \cap Elems(d)
RECURSIVE Ancestors(_, _)
Ancestors(d, i) == IF d[i].p = 0 THEN {} ELSE {d[i].p} \cup Ancestors(d, d[i].p)
Desc(d, p) == {i \in DOMAIN d : p \in Ancestors(d, i)}
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
First(S) == CHOOSE x \in S : \A y \in S : x <= y
EndOf(d, p) == Last(Desc(d, p) \cup {p})
HasAttr(n, a) == a \in DOMAIN n.at

(* ---- what a query selects                                                    *)
ByIds(q) == CASE q = "1" -> <<1>> [] q = "2 3" -> <<2, 3>> [] q = "3,2,3" -> <<3, 2>> [] q = "2, 4" -> <<2, 4>> [] OTHER -> <<>>
IsIds(q) == q \in {"1", "2 3", "3,2,3", "2, 4"}
IsBad(q) == q \in {"::", "g >", ""}
Matches(d, i, q) ==
  LET n == d[i] IN
  CASE q = "*" -> TRUE
    [] q \in {"svg", "g", "rect", "path", "text", "title", "stop", "tspan"} -> n.n = q
    [] q = ".a" -> "a" \in n.cls
    [] q = ".n" -> "n" \in n.cls
    [] q = "#r" -> HasAttr(n, "id") /\ n.at["id"] = "r"
    [] q = "g > rect" -> n.n = "rect" /\ n.p # 0 /\ d[n.p].n = "g"
    [] q = "g rect" -> n.n = "rect" /\ \E j \in Ancestors(d, i) : d[j].n = "g"
    [] q = "rect, g" -> n.n \in {"rect", "g"}
    [] q = ":last-child" -> i = Last(ElKids(d, n.p))
    [] q = "svg > :last-child" -> n.p = 1 /\ i = Last(ElKids(d, n.p))
    [] q = "rect:first-child" -> n.n = "rect" /\ i = First(ElKids(d, n.p))
    [] q = "rect:not(.a)" -> n.n = "rect" /\ "a" \notin n.cls
    [] q = "[fill]" -> HasAttr(n, "fill")
    [] q = "g:empty" -> n.n = "g" /\ Kids(d, i) = {}
    [] OTHER -> FALSE
Picked(d, q) == {i \in Elems(d) : Matches(d, i, q)}
Chosen(d, q) == IF IsIds(q) THEN {ByIds(q)[k] : k \in DOMAIN ByIds(q)} ELSE Picked(d, q)

(* ---- which attributes and children an element of the drawing takes           *)
Anywhere == {"fill", "id", "class", "opacity"}
Takes(n, a) ==
  CASE a \in Anywhere -> TRUE
    [] a = "d" -> n = "path"
    [] a = "width" -> n \in {"svg", "rect"}
    [] a = "x" -> n \in {"svg", "rect", "text", "tspan"}
    [] a = "viewBox" -> n = "svg"
    [] a = "offset" -> n = "stop"
    [] OTHER -> FALSE
Holds(p, c) ==
  CASE p \in {"svg", "g"} -> c \in {"g", "rect", "path", "text", "title", "linearGradient"}
    [] p \in {"rect", "path"} -> c \in {"title", "linearGradient"}
    [] p \in {"text", "tspan"} -> c \in {"title", "linearGradient", "tspan"}
    [] p = "linearGradient" -> c \in {"title", "stop"}
    [] OTHER -> FALSE

(* ---- editing the selected elements                                           *)
Nothing == [x \in {} |-> ""]
Put(at, a, v) == [x \in DOMAIN at \cup {a} |-> IF x = a THEN v ELSE at[x]]
Without(at, a) == [x \in DOMAIN at \ {a} |-> at[x]]
OnSel(d, s, F(_)) == [i \in DOMAIN d |-> IF i \in s /\ i \in Elems(d) THEN F(d[i]) ELSE d[i]]
SetAttr(a, v, n) ==
  IF ~Takes(n.n, a) THEN n ELSE IF a = "class" THEN [n EXCEPT !.cls = {v}] ELSE [n EXCEPT !.at = Put(n.at, a, v)]
Toggle(c, n) == [n EXCEPT !.cls = IF c \in n.cls THEN n.cls \ {c} ELSE n.cls \cup {c}]
AddStyle(p, v, imp, n) == [n EXCEPT !.sty = Append(n.sty, <<p, v, imp>>)]
AddTransform(t, n) == [n EXCEPT !.tr = Append(n.tr, t), !.at = Without(n.at, "transform")]
Arg(a, k, other) == IF Len(a) >= k THEN a[k] ELSE other
Function(a) ==
  CASE a[1] = "translate" -> <<"translate", a[2], Arg(a, 3, "0")>>
    [] a[1] = "scale" -> <<"scale", a[2], Arg(a, 3, a[2])>>
    [] a[1] = "rotate" -> <<"rotate", a[2], Arg(a, 3, "0"), Arg(a, 4, "0")>>
    [] OTHER -> a
(* the declarations in force                                                    *)
InForce(sty) ==
  LET props == {sty[k][1] : k \in DOMAIN sty}
      of(p, imp) == {k \in DOMAIN sty : sty[k][1] = p /\ sty[k][3] = imp}
  IN {IF of(p, "!") # {} THEN <<p, sty[Last(of(p, "!"))][2], "!">> ELSE <<p, sty[Last(of(p, ""))][2], "">> : p \in props}

(* ---- inserting a child at the end of every selected element                  *)
New(name, p) == [n |-> name, p |-> p, t |-> "", at |-> Nothing, cls |-> {}, sty |-> <<>>, tr |-> <<>>]
Shift(i, pos) == IF i >= pos THEN i + 1 ELSE i
InsertUnder(d, p, name) ==
  LET pos == EndOf(d, p) + 1
      moved(n) == [n EXCEPT !.p = Shift(n.p, pos)]
  IN [i \in 1..(Len(d) + 1) |-> IF i < pos THEN d[i] ELSE IF i = pos THEN New(name, p) ELSE moved(d[i - 1])]
RECURSIVE InsertAll(_, _, _, _)
InsertAll(d, parents, name, new) ==
  IF parents = {} THEN [d |-> d, new |-> new]
  ELSE LET p == Last(parents)
           pos == EndOf(d, p) + 1
       IN InsertAll(InsertUnder(d, p, name), parents \ {p}, name, {Shift(i, pos) : i \in new} \cup {pos})

(* ---- the session                                                             *)
Begin(d) == [d |-> d, sel |-> {}, hist |-> <<>>, kept |-> FALSE, ok |-> TRUE]
(* kept: the document carries the state                                         *)
Saves == {"save", "keep"}
Effect(s, a) ==
  LET ed(F(_)) == [s EXCEPT !.d = OnSel(s.d, s.sel, F)]
      parents == {i \in s.sel \cap Elems(s.d) : Holds(s.d[i].n, a[2])}
  IN
  CASE a[1] = "select" -> [s EXCEPT !.sel = Chosen(s.d, a[2])]
    [] a[1] = "more" -> [s EXCEPT !.sel = s.sel \cup Chosen(s.d, a[2])]
    [] a[1] = "deselect" -> [s EXCEPT !.sel = {}]
    [] a[1] = "attr" -> LET F(n) == SetAttr(a[2], a[3], n) IN ed(F)
    [] a[1] = "class" -> LET F(n) == Toggle(a[2], n) IN ed(F)
    [] a[1] = "style" -> LET F(n) == AddStyle(a[2], a[3], Arg(a, 4, ""), n) IN ed(F)
    [] a[1] \in {"translate", "scale", "rotate", "skewX", "skewY", "matrix"} -> LET F(n) == AddTransform(Function(a), n) IN ed(F)
    [] a[1] = "insert" -> IF parents = {} THEN s
                          ELSE LET r == InsertAll(s.d, parents, a[2], {}) IN [s EXCEPT !.d = r.d, !.sel = r.new]
    [] a[1] = "forget" -> [s EXCEPT !.sel = {}]
    [] OTHER -> s
Fails(a) == a[1] \in {"select", "more"} /\ IsBad(a[2])
Apply(s, a) ==
  IF a[1] \in Saves THEN IF s.kept THEN s ELSE [s EXCEPT !.hist = <<>>, !.sel = {}]
  ELSE IF a[1] = "snapshot" THEN s
  ELSE IF Fails(a) THEN [s EXCEPT !.ok = FALSE]
  ELSE [Effect(s, a) EXCEPT !.hist = Append(s.hist, a), !.kept = (a[1] # "forget")]
=============================================================================
