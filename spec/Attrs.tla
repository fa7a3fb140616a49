------------------------------- MODULE Attrs --------------------------------
(* The attributes of one element: an ordered map from qualified names to        *)
(* values, and the class list: an ordered set of tokens seen through the class  *)
(* attribute.  Values are sequences of words.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* qualified names in alphabetical order (no prefix first); part: what sorting by a list looks at
Names == <<
  [px |-> "",      l |-> "class",        part |-> "class"],
  [px |-> "",      l |-> "data-x",       part |-> "data"],
  [px |-> "",      l |-> "fill",         part |-> "fill"],
  [px |-> "",      l |-> "href",         part |-> "href"],
  [px |-> "",      l |-> "id",           part |-> "id"],
  [px |-> "",      l |-> "stroke",       part |-> "stroke"],
  [px |-> "",      l |-> "stroke-width", part |-> "stroke"],
  [px |-> "e",     l |-> "foo",          part |-> "foo"],
  [px |-> "e",     l |-> "href",         part |-> "href"],
  [px |-> "xlink", l |-> "href",         part |-> "href"],
  [px |-> "xml",   l |-> "space",        part |-> "space"],
  [px |-> "xmlns", l |-> "q",            part |-> "q"] >>
Class == 1
Keys == DOMAIN Names
Values(k) == CASE k = 3 \/ k = 6 -> {<<"red">>, <<"none">>}
               [] k = 4 \/ k = 10 -> {<<"#p">>, <<"#q">>}
               [] k = 7 -> {<<"2">>, <<"3">>}
               [] k = 11 -> {<<"default">>, <<"preserve">>}
               [] OTHER -> {<<"v">>, <<"w">>}

\* ---------------------------------------------------------------- the map
Index(at, k) == IF \E i \in DOMAIN at : at[i].k = k THEN CHOOSE i \in DOMAIN at : at[i].k = k ELSE 0
None == <<"-">>
Get(at, k) == IF Index(at, k) = 0 THEN None ELSE at[Index(at, k)].v
Put(at, k, v) == IF Index(at, k) = 0 THEN Append(at, [k |-> k, v |-> v]) ELSE [at EXCEPT ![Index(at, k)].v = v]
Keep(at, ks) == SelectSeq(at, LAMBDA a : a.k \in ks)
Drop(at, k) == Keep(at, Keys \ {k})

Unique(at) == \A i, j \in DOMAIN at : at[i].k = at[j].k => i = j

\* sorting: declarations first when asked to, prefixed names next, then by the list, then by name
Prio(k, front) == IF front /\ Names[k].px = "xmlns" THEN 0 ELSE IF Names[k].px # "" THEN 1 ELSE 2
Place(k, order) == IF \E i \in DOMAIN order : order[i] = Names[k].part
                   THEN CHOOSE i \in DOMAIN order : order[i] = Names[k].part ELSE Len(order) + 1
Before(a, b, order, front) ==
  IF Prio(a, front) # Prio(b, front) THEN Prio(a, front) < Prio(b, front)
  ELSE IF Place(a, order) # Place(b, order) THEN Place(a, order) < Place(b, order)
  ELSE a < b
Sorted(at, order, front) ==
  [i \in DOMAIN at |-> CHOOSE a \in {at[j] : j \in DOMAIN at} :
      Cardinality({b \in {at[j].k : j \in DOMAIN at} : Before(b, a.k, order, front)}) = i - 1]

\* ------------------------------------------------------------- the class list
Tokens(at) == IF Index(at, Class) = 0 THEN <<>> ELSE Get(at, Class)
Has(ts, t) == \E i \in DOMAIN ts : ts[i] = t
Without(ts, t) == SelectSeq(ts, LAMBDA x : x # t)
\* an empty list is spelled by an empty attribute or by none
Spell(at, ts) == IF ts = <<>> THEN {Drop(at, Class)} \cup (IF Index(at, Class) = 0 THEN {} ELSE {Put(at, Class, ts)})
                 ELSE {Put(at, Class, ts)}
\* the earlier of both places gets the new token
Swap(ts, t, u) == LET first == CHOOSE i \in DOMAIN ts : ts[i] \in {t, u} /\ \A j \in DOMAIN ts : ts[j] \in {t, u} => i <= j
                      RECURSIVE Go(_)
                      Go(i) == IF i > Len(ts) THEN <<>>
                               ELSE (IF i = first THEN <<u>> ELSE IF ts[i] \in {t, u} THEN <<>> ELSE <<ts[i]>>) \o Go(i + 1)
                  IN Go(1)

\* ------------------------------------------------------------------ operations
Op(op, k, v, ks, w) == [op |-> op, k |-> k, v |-> v, ks |-> ks, w |-> w]
Orders == {<<>>, <<"id", "stroke", "fill">>, <<"href", "class", "data">>}

\* the allowed next states and the answer
Apply(at, o) ==
  CASE o.op = "set"      -> [next |-> {Put(at, o.k, o.v)}, ret |-> <<>>]
    [] o.op = "set_item" -> [next |-> {Put(at, o.k, o.v)}, ret |-> Get(at, o.k)]
    [] o.op = "mutate"   -> [next |-> {IF Index(at, o.k) = 0 THEN at ELSE Put(at, o.k, o.v)}, ret |-> Get(at, o.k)]
    [] o.op = "remove"   -> [next |-> {Drop(at, o.k)}, ret |-> Get(at, o.k)]
    [] o.op = "retain"   -> [next |-> {Keep(at, {o.ks[i] : i \in DOMAIN o.ks})}, ret |-> <<>>]
    [] o.op = "sort"     -> [next |-> {Sorted(at, o.w, o.k = 1)}, ret |-> <<>>]
    [] o.op = "move"     -> [next |-> {at}, ret |-> <<>>]
    [] o.op = "c_add"    -> [next |-> IF Has(Tokens(at), o.w[1]) THEN {at} ELSE {Put(at, Class, Append(Tokens(at), o.w[1]))}, ret |-> <<>>]
    [] o.op = "c_remove" -> [next |-> IF Tokens(at) = <<>> THEN {at} \cup Spell(at, <<>>) ELSE Spell(at, Without(Tokens(at), o.w[1])), ret |-> <<>>]
    [] o.op = "c_toggle" -> IF Has(Tokens(at), o.w[1])
                            THEN [next |-> Spell(at, Without(Tokens(at), o.w[1])), ret |-> <<"false">>]
                            ELSE [next |-> {Put(at, Class, Append(Tokens(at), o.w[1]))}, ret |-> <<"true">>]
    [] o.op = "c_replace" -> IF Has(Tokens(at), o.w[1])
                             THEN [next |-> {Put(at, Class, Swap(Tokens(at), o.w[1], o.w[2]))}, ret |-> <<"true">>]
                             ELSE [next |-> {at}, ret |-> <<"false">>]
    [] o.op = "c_retain" -> [next |-> IF Tokens(at) = <<>> THEN {at} \cup Spell(at, <<>>)
                                      ELSE Spell(at, SelectSeq(Tokens(at), LAMBDA t : Has(o.w, t))), ret |-> <<>>]

\* all operations over some names and words
Lists(S) == {<<>>} \cup {<<x>> : x \in S} \cup ({<<x, y>> : x, y \in S} \ {<<x, x>> : x \in S})
ValuesIn(k, words) == IF k = Class THEN Lists(words) ELSE Values(k)
Ops(names, words, keeps) ==
       UNION {{Op("set", k, v, <<>>, <<>>) : v \in ValuesIn(k, words)} : k \in names}
  \cup UNION {{Op("set_item", k, v, <<>>, <<>>) : v \in ValuesIn(k, words)} : k \in names}
  \cup UNION {{Op("mutate", k, v, <<>>, <<>>) : v \in ValuesIn(k, words)} : k \in names}
  \cup {Op("remove", k, <<>>, <<>>, <<>>) : k \in names}
  \cup {Op("retain", 0, <<>>, ks, <<>>) : ks \in keeps}
  \cup {Op("sort", f, <<>>, <<>>, w) : f \in {0, 1}, w \in Orders}
  \cup {Op("move", 0, <<>>, <<>>, <<>>)}
  \cup {Op(n, 0, <<>>, <<>>, <<t>>) : n \in {"c_add", "c_remove", "c_toggle"}, t \in words}
  \cup {Op("c_replace", 0, <<>>, <<>>, <<t, u>>) : t, u \in words}
  \cup {Op("c_retain", 0, <<>>, <<>>, w) : w \in Lists(words)}

\* what the queries have to answer
View(at, words) == [
  l |-> [i \in DOMAIN at |-> <<ToString(at[i].k)>> \o at[i].v],
  g |-> [k \in Keys |-> Get(at, k)],
  c |-> Tokens(at),
  h |-> [i \in DOMAIN words |-> Has(Tokens(at), words[i])]]
=============================================================================
