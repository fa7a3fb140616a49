------------------------------- MODULE GenAct -------------------------------
(* Editing sessions: every sequence of actions up to a length, with saving and  *)
(* reading back between them.                                                   *)
EXTENDS Actions, TLC, Json
CONSTANTS MaxSteps, Wide
VARIABLES d0, s, steps

N(n, p, at, cls, sty, tr) == [n |-> n, p |-> p, t |-> "", at |-> at, cls |-> cls, sty |-> sty, tr |-> tr]
E(n, p) == N(n, p, Nothing, {}, <<>>, <<>>)
T(p, t) == [New("#text", p) EXCEPT !.t = t]
At(a, v) == [x \in {a} |-> v]
Docs == <<
  <<E("svg", 0), N("g", 1, Nothing, {"a"}, <<>>, <<>>), N("rect", 2, At("id", "r"), {}, <<>>, <<>>), N("rect", 1, At("fill", "red"), {"a", "b"}, << <<"fill", "tan", "">>, <<"opacity", "1", "!">> >>, << <<"scale", "2", "2">> >>)>>,
  <<E("svg", 0), E("text", 1), T(2, "hi"), E("g", 1), E("g", 4), N("path", 5, At("transform", "inherit"), {}, <<>>, <<>>), T(1, "end")>>,
  <<E("svg", 0)>>
>>
Selects == {<<"select", q>> : q \in {"rect", "g", "*", ".a", "svg > :last-child", "svg", "2 3", "3,2,3"}} \cup {<<"more", q>> : q \in {"g", "rect, g", "*", "2, 4"}} \cup {<<"deselect">>}
Edits == {<<"attr", "fill", "red">>, <<"attr", "width", "7">>, <<"class", "a">>, <<"style", "fill", "red">>, <<"translate", "3">>, <<"insert", "rect">>, <<"insert", "g">>, <<"forget">>}
Wides == {<<"select", q>> : q \in {"path", "text", "title", ".n", "#r", "g > rect", "g rect", ":last-child", "rect:first-child", "rect:not(.a)", "[fill]", "g:empty", "1"}} \cup {<<"more", q>> : q \in {"svg", ".n", "[fill]", "3,2,3", ":last-child"}}
  \cup {<<"attr", "d", "M0 0">>, <<"attr", "x", "4">>, <<"attr", "id", "z">>, <<"attr", "viewBox", "0 0 9 9">>, <<"attr", "unknown", "u">>, <<"attr", "class", "n">>, <<"attr", "fill", "tan">>, <<"attr", "offset", "1">>}
  \cup {<<"class", "n">>, <<"class", "b">>, <<"style", "opacity", "0">>, <<"style", "fill", "tan", "!">>, <<"style", "stroke-width", "2">>}
  \cup {<<"translate", "1", "2">>, <<"scale", "2">>, <<"scale", "2", "3">>, <<"rotate", "90">>, <<"rotate", "90", "1", "2">>, <<"skewX", "5">>, <<"skewY", "5">>, <<"matrix", "1", "2", "3", "4", "5", "6">>}
  \cup {<<"insert", n>> : n \in {"text", "title", "stop", "tspan", "linearGradient"}} \cup {<<"path", n>> : n \in {"union", "intersect", "subtract", "xor"}}
Fatal == {<<"select", "::">>, <<"more", "g >">>}
Acts == Selects \cup Edits \cup {<<"save">>, <<"keep">>, <<"snapshot">>} \cup (IF Wide THEN Wides \cup Fatal ELSE {})

Fits(a) ==
  /\ s.ok
  /\ (a[1] \in Saves \cup {"snapshot"} => steps # <<>> /\ steps[Len(steps)][1] \notin Saves \cup {"snapshot"})
  /\ (a[1] = "insert" /\ \E i \in s.sel \cap Elems(s.d) : s.d[i].n = "title") = FALSE
  /\ (a[1] = "path" => ~\E i \in s.sel \cap Elems(s.d) : s.d[i].n = "path")
  /\ (IsIds(Arg(a, 2, "")) /\ a[1] \in {"select", "more"} => \A i \in Chosen(s.d, a[2]) : i <= Len(s.d))
Init == d0 \in {Docs[i] : i \in DOMAIN Docs} /\ s = Begin(d0) /\ steps = <<>>
Next == Len(steps) < MaxSteps /\ \E a \in Acts :
          /\ Fits(a) /\ s' = Apply(s, a) /\ steps' = Append(steps, a) /\ UNCHANGED d0
          /\ IF Len(steps) + 1 = MaxSteps \/ ~s'.ok THEN PrintT("@@" \o ToJson([doc |-> d0, steps |-> steps'])) ELSE TRUE
Spec == Init /\ [][Next]_<<d0, s, steps>>

(* ---- what holds of every session                                             *)
SelectedExist == s.sel \subseteq DOMAIN s.d
TreeShaped == \A i \in DOMAIN s.d : s.d[i].p < i /\ (i > 1 => s.d[i].p > 0 /\ i <= EndOf(s.d, s.d[i].p))
SavingKeeps == s.kept => Apply(s, <<"save">>) = s
Toggling == Apply(Apply(s, <<"class", "q">>), <<"class", "q">>).d = s.d
NoSelectionNoEdit == s.sel = {} => \A a \in Edits : Apply(s, a).d = s.d
OnlySelected == \A a \in Edits \ {<<"insert", "rect">>, <<"insert", "g">>} : \A i \in DOMAIN s.d \ s.sel : Apply(s, a).d[i] = s.d[i]
MoreIsSelectTwice == Apply(Apply(s, <<"select", "g">>), <<"more", "rect">>).sel = Picked(s.d, "rect, g")
Inserted == LET t == Apply(s, <<"insert", "g">>) IN Len(t.d) = Len(s.d) + Cardinality({i \in s.sel \cap Elems(s.d) : s.d[i].n \in {"svg", "g"}})
=============================================================================
