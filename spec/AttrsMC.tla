------------------------------ MODULE AttrsMC -------------------------------
(* Every small attribute list, every operation from it (exhaustive), or long    *)
(* histories (simulation).                                                      *)
EXTENDS Attrs, Json, IOUtils
CONSTANTS MaxLen, Steps
VARIABLES at, hist

Words == {"a", "b", "c"}
Keeps == {<<>>, <<1, 4>>, <<3, 9, 12>>, <<2, 4, 5, 6, 7, 8, 10, 11>>}

Init == at = <<>> /\ hist = <<>>
Emit(start, ops) == PrintT("@@" \o ToJson([at |-> start, ops |-> ops]))

\* exhaustive: the history is not part of the state
Step == \E o \in Ops(Keys, {"a", "b"}, Keeps) :
          /\ Emit(at, <<o>>)
          /\ \E t \in Apply(at, o).next : Len(t) <= MaxLen /\ at' = t
          /\ UNCHANGED hist
Spec == Init /\ [][Step]_<<at, hist>>

\* simulation
Kinds == {"set", "set_item", "mutate", "remove", "retain", "sort", "move", "c_add", "c_remove", "c_toggle", "c_replace", "c_retain"}
Pool == Ops(Keys, Words, Keeps)
OfKind == [n \in Kinds |-> {o \in Pool : o.op = n}]
Roam == /\ Len(hist) < Steps
        /\ \E n \in {RandomElement(Kinds \cup {"set"})} : \E o \in {RandomElement(OfKind[n])} :
             /\ \E t \in {RandomElement(Apply(at, o).next)} : at' = t
             /\ hist' = Append(hist, o)
             /\ IF Len(hist') = Steps THEN Emit(<<>>, hist') ELSE TRUE
RoamSpec == Init /\ [][Roam]_<<at, hist>>

Inv == Unique(at)
\* an operation never disturbs the attributes it does not name
Touched(o) == CASE o.op \in {"set", "set_item", "mutate", "remove"} -> {o.k}
                [] o.op = "retain" -> Keys \ {o.ks[i] : i \in DOMAIN o.ks}
                [] o.op = "sort" \/ o.op = "move" -> {}
                [] OTHER -> {Class}
Frame == \A o \in Ops(Keys, {"a", "b"}, Keeps) : \A t \in Apply(at, o).next :
           /\ Unique(t)
           /\ \A k \in Keys \ Touched(o) : Get(t, k) = Get(at, k)
           /\ o.op # "sort" => Keep(t, Keys \ Touched(o)) = Keep(at, Keys \ Touched(o))
           /\ \A i, j \in DOMAIN Tokens(t) : Tokens(t)[i] = Tokens(t)[j] => i = j
=============================================================================
