-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Ordered document trees and the public edits on them.                    *)
(*                                                                         *)
(* A tree state is a record                                                *)
(*    kids  : function from allocated nodes to the sequence of their       *)
(*            children,                                                    *)
(*    kind  : function from allocated nodes to "elem" or "text".           *)
(* Everything the implementation stores per node (parent, first and last   *)
(* child, previous and next sibling) is a function of kids, so an          *)
(* observation of all five links of all nodes projects the whole           *)
(* implementation state: checking every single step from every tree of a   *)
(* given size is inductive for histories of any length over that size.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT MaxNode          \* nodes are 0..MaxNode; 0 is the root element

Nil == 99                 \* "no node" in observations

Alloc(s)    == DOMAIN s.kids
IsElem(s,n) == s.kind[n] = "elem"
Fresh(s)    == CHOOSE n \in (0..MaxNode) \ Alloc(s) :
                 \A m \in (0..MaxNode) \ Alloc(s) : n <= m
CanAlloc(s) == Alloc(s) # 0..MaxNode

IndexOf(q, n) == IF \E i \in DOMAIN q : q[i] = n
                 THEN CHOOSE i \in DOMAIN q : q[i] = n ELSE 0
InSeq(q, n)   == \E i \in DOMAIN q : q[i] = n

ParentOf(s, n) == IF \E p \in Alloc(s) : InSeq(s.kids[p], n)
                  THEN CHOOSE p \in Alloc(s) : InSeq(s.kids[p], n) ELSE Nil
Attached(s, n) == ParentOf(s, n) # Nil

RECURSIVE Below(_, _)
\* strict descendants
Below(s, n) == ToSet(s.kids[n]) \cup UNION { Below(s, c) : c \in ToSet(s.kids[n]) }

Without(q, n)   == SelectSeq(q, LAMBDA x : x # n)
Put(q, i, n)    == SubSeq(q, 1, i) \o <<n>> \o SubSeq(q, i + 1, Len(q))  \* after i items

Detach(s, n) == [s EXCEPT !.kids = [p \in DOMAIN s.kids |-> Without(s.kids[p], n)]]
DetachAll(s, S) ==
  [s EXCEPT !.kids = [p \in DOMAIN s.kids |-> SelectSeq(s.kids[p], LAMBDA x : x \notin S)]]

\* insert the (already detached) node n into p after i children
PutChild(s, p, i, n) == [s EXCEPT !.kids[p] = Put(@, i, n)]

NewNode(s, k) ==
  LET n == Fresh(s) IN
  [kids |-> [m \in Alloc(s) \cup {n} |-> IF m = n THEN <<>> ELSE s.kids[m]],
   kind |-> [m \in Alloc(s) \cup {n} |-> IF m = n THEN k ELSE s.kind[m]]]

(***************************** the edits ***********************************)
AppendTo(s, p, n)  == LET d == Detach(s, n) IN PutChild(d, p, Len(d.kids[p]), n)
PrependTo(s, p, n) == PutChild(Detach(s, n), p, 0, n)
InsertIdx(s, p, i, n) ==
  LET len == Len(s.kids[p]) IN
  PutChild(Detach(s, n), p, IF i < len THEN i ELSE len, n)
BeforeRef(s, n, r) == LET d == Detach(s, n) p == ParentOf(s, r) IN
  PutChild(d, p, IndexOf(d.kids[p], r) - 1, n)
AfterRef(s, n, r) == LET d == Detach(s, n) p == ParentOf(s, r) IN
  PutChild(d, p, IndexOf(d.kids[p], r), n)
ReplaceRef(s, n, o) ==
  LET p == ParentOf(s, o) d == Detach(s, n) IN
  Detach(PutChild(d, p, IndexOf(d.kids[p], o), n), o)
ReplaceKids(s, p, ns) ==
  LET d == DetachAll(s, ToSet(ns) \cup ToSet(s.kids[p])) IN [d EXCEPT !.kids[p] = ns]
FlattenElem(s, e) ==
  LET p == ParentOf(s, e) i == IndexOf(s.kids[p], e) q == s.kids[p] IN
  [s EXCEPT !.kids = [m \in DOMAIN s.kids |->
      IF m = p THEN SubSeq(q, 1, i - 1) \o s.kids[e] \o SubSeq(q, i + 1, Len(q))
      ELSE IF m = e THEN <<>> ELSE s.kids[m]]]
\* elements in descending node order (the driver's comparison), other nodes first, stable
SortElems(s, p) ==
  LET q == s.kids[p]
      es == SelectSeq(q, LAMBDA x : IsElem(s, x))
      os == SelectSeq(q, LAMBDA x : ~IsElem(s, x))
  IN [s EXCEPT !.kids[p] = os \o SortSeq(es, LAMBDA a, b : a > b)]
RetainIn(s, p, keep) == [s EXCEPT !.kids[p] = SelectSeq(@, LAMBDA x : x \in keep)]
EmptyNode(s, p) == [s EXCEPT !.kids[p] = <<>>]
SetText(s, n) ==
  IF IsElem(s, n) THEN LET a == NewNode(EmptyNode(s, n), "text") IN
                       [a EXCEPT !.kids[n] = <<Fresh(s)>>]
  ELSE s
\* a rename replaces the element by a new one that takes over place and children
Rename(s, e) ==
  LET n == Fresh(s) a == NewNode(s, "elem")
      b == [a EXCEPT !.kids[n] = a.kids[e], !.kids[e] = <<>>]
  IN ReplaceRef(b, n, e)

(******************** which edits are meaningful where *********************)
CanHold(s, p, n) == IsElem(s, p) /\ p # n /\ p \notin Below(s, n) /\ n # 0

Op0 == [op |-> "none", p |-> 0, n |-> 0, r |-> 0, i |-> 0, ns |-> <<>>]

EditNames == {"append", "append_child", "prepend", "insert", "insert_before", "insert_after",
          "before", "after", "replace_child", "replace_with", "remove", "sort", "empty", "flatten",
          "retain", "replace_children", "clone", "rename", "set_text", "reorder"}

EditsOf(s, o) ==
  LET A == Alloc(s) E == {n \in A : IsElem(s, n)} IN
  CASE o \in {"append", "append_child", "prepend"} ->
         { [Op0 EXCEPT !.op = o, !.p = x[1], !.n = x[2]] :
             x \in {y \in E \X A : CanHold(s, y[1], y[2])} }
    [] o = "insert" ->
         { [Op0 EXCEPT !.op = o, !.p = x[1], !.i = x[2], !.n = x[3]] :
             x \in {y \in E \X (0..3) \X A : /\ y[2] <= Len(s.kids[y[1]]) + 1
                                             /\ CanHold(s, y[1], y[3])
                                             /\ ~InSeq(s.kids[y[1]], y[3])} }
    [] o \in {"insert_before", "insert_after", "replace_child"} ->
         UNION { { [Op0 EXCEPT !.op = o, !.p = p, !.n = x[1], !.r = x[2]] :
                     x \in {y \in A \X ToSet(s.kids[p]) : y[1] # y[2] /\ CanHold(s, p, y[1])} } : p \in E }
    [] o \in {"before", "after", "replace_with"} ->
         { [Op0 EXCEPT !.op = o, !.n = x[1], !.r = x[2]] :
             x \in {y \in A \X E : /\ y[1] # y[2] /\ Attached(s, y[2])
                                   /\ CanHold(s, ParentOf(s, y[2]), y[1])} }
    [] o = "remove" -> { [Op0 EXCEPT !.op = o, !.n = n] : n \in A \ {0} }
    [] o \in {"sort", "empty"} -> { [Op0 EXCEPT !.op = o, !.p = p] : p \in E }
    [] o = "flatten" -> { [Op0 EXCEPT !.op = o, !.p = p] : p \in {e \in E : Attached(s, e)} }
    [] o = "retain" ->
         UNION { { [Op0 EXCEPT !.op = o, !.p = p, !.ns = SetToSortSeq(k, LAMBDA a, b : a < b)] :
                     k \in SUBSET ToSet(s.kids[p]) } : p \in E }
    [] o = "replace_children" ->
         { [Op0 EXCEPT !.op = o, !.p = x[1], !.ns = x[2]] :
             x \in {y \in E \X ({<<>>} \cup {<<a>> : a \in A} \cup {z \in A \X A : z[1] # z[2]}) :
                     \A n \in ToSet(y[2]) : CanHold(s, y[1], n)} }
    [] o = "clone" -> IF CanAlloc(s) THEN { [Op0 EXCEPT !.op = o, !.n = n] : n \in A } ELSE {}
    [] o = "rename" ->
         IF CanAlloc(s) THEN { [Op0 EXCEPT !.op = o, !.n = n] : n \in {e \in E : Attached(s, e)} } ELSE {}
    [] o = "set_text" -> IF CanAlloc(s) THEN { [Op0 EXCEPT !.op = o, !.n = n] : n \in A } ELSE {}
    [] o = "reorder" -> { [Op0 EXCEPT !.op = o] }

Edits(s) == UNION { EditsOf(s, o) : o \in EditNames }

Apply(s, o) ==
  CASE o.op \in {"append", "append_child"} -> AppendTo(s, o.p, o.n)
    [] o.op = "prepend"          -> PrependTo(s, o.p, o.n)
    [] o.op = "insert"           -> InsertIdx(s, o.p, o.i, o.n)
    [] o.op \in {"insert_before", "before"} -> BeforeRef(s, o.n, o.r)
    [] o.op \in {"insert_after", "after"}   -> AfterRef(s, o.n, o.r)
    [] o.op \in {"replace_child", "replace_with"} -> ReplaceRef(s, o.n, o.r)
    [] o.op = "remove"           -> Detach(s, o.n)
    [] o.op = "sort"             -> SortElems(s, o.p)
    [] o.op = "empty"            -> EmptyNode(s, o.p)
    [] o.op = "flatten"          -> FlattenElem(s, o.p)
    [] o.op = "retain"           -> RetainIn(s, o.p, ToSet(o.ns))
    [] o.op = "replace_children" -> ReplaceKids(s, o.p, o.ns)
    [] o.op = "clone"            -> NewNode(s, s.kind[o.n])
    [] o.op = "rename"           -> Rename(s, o.n)
    [] o.op = "set_text"         -> SetText(s, o.n)
    [] o.op = "reorder"          -> s

(************************ spec-level invariants ****************************)
NodesOnce(s) ==
  /\ \A p \in Alloc(s) : IsInjective(s.kids[p]) /\ ToSet(s.kids[p]) \subseteq Alloc(s)
  /\ \A p, q \in Alloc(s) : p # q => ToSet(s.kids[p]) \cap ToSet(s.kids[q]) = {}
Acyclic(s)   == \A p \in Alloc(s) : p \notin Below(s, p)
TextLeaf(s)  == \A p \in Alloc(s) : ~IsElem(s, p) => s.kids[p] = <<>>
WellFormed(s) == NodesOnce(s) /\ Acyclic(s) /\ TextLeaf(s) /\ ~Attached(s, 0)

(*************** what the public queries must report ***********************)
RECURSIVE Pre(_, _)
Pre(s, n) == <<n>> \o FlattenSeq([i \in 1..Len(s.kids[n]) |-> Pre(s, s.kids[n][i])])
RECURSIVE Breadth(_, _)
Breadth(s, q) == IF q = <<>> THEN <<>>
  ELSE <<Head(q)>> \o Breadth(s, Tail(q) \o SelectSeq(s.kids[Head(q)], LAMBDA x : IsElem(s, x)))

At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE Nil
\* order of taking alternately from the front and the back
RECURSIVE Alternate(_)
Alternate(q) == IF Len(q) <= 1 THEN q
                ELSE <<q[1], q[Len(q)]>> \o Alternate(SubSeq(q, 2, Len(q) - 1))

NodeView(s, n) ==
  LET p  == ParentOf(s, n)
      sib == IF p = Nil THEN <<n>> ELSE s.kids[p]
      i  == IndexOf(sib, n)
      k  == s.kids[n]
      ek == SelectSeq(k, LAMBDA x : IsElem(s, x))
      es == SelectSeq(sib, LAMBDA x : IsElem(s, x))
      ei == IndexOf(es, n)
  IN << n, p, At(sib, i - 1), At(sib, i + 1),       \* node, parent, previous, next
        At(k, 1), At(k, Len(k)),                     \* first and last child
        IF p = Nil THEN Nil ELSE i - 1,              \* index in the parent
        At(ek, 1), At(ek, Len(ek)),                  \* first and last element child
        IF p = Nil \/ ~IsElem(s, n) THEN Nil ELSE At(es, ei - 1),   \* element siblings
        IF p = Nil \/ ~IsElem(s, n) THEN Nil ELSE At(es, ei + 1),
        k, Reverse(k), Alternate(k),                 \* children forwards, backwards, from both ends
        k,                                           \* children by index
        ek,                                          \* element children
        SetToSortSeq(Below(s, n), LAMBDA a, b : a < b),   \* contains
        Breadth(s, ek) >>                            \* breadth-first walk

View(s) == [i \in 1..Cardinality(Alloc(s)) |->
              NodeView(s, SetToSortSeq(Alloc(s), LAMBDA a, b : a < b)[i])]

\* after renumbering, ids run in document order over the tree, then over all other nodes
OrderOK(s, ids) ==
  LET t == Pre(s, 0) IN
  /\ \A i \in 1..Len(t) : ids[t[i] + 1] = i - 1
  /\ \A n \in Alloc(s) \ ToSet(t) : ids[n + 1] >= Len(t)
  /\ IsInjective(ids)
=============================================================================
