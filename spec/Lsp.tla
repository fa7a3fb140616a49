-------------------------------- MODULE Lsp --------------------------------
(* An editor and the language server.  The editor opens, changes and closes documents; the server takes its notices one after
   another and tells what it finds.  An editor shows, for a document, what it was last told about it.
   Texts are what a document may hold: a document of Lint.tla laid out in one of several ways, or something that is no document. *)
EXTENDS Lint
CONSTANTS Docs, Held, Depth
VARIABLES history,    \* the notices sent: [op, doc, text]
          taken,      \* how many of them the server has dealt with
          told        \* document -> the text whose problems it was last told, or 0

At(k, v) == [k |-> k, p |-> "", v |-> v, ref |-> "", of |-> ""]
El(k, parent, as) == [k |-> k, p |-> "", parent |-> parent, attrs |-> as, css |-> <<>>]
Ns == At("xmlns", SVG)
Plain == <<El("svg", 0, <<Ns>>), El("rect", 1, <<At("width", "5")>>)>>
Wide == "wide"        \* stands for characters of two, three and four bytes
Texts == <<
  [bad |-> FALSE, layout |-> 0, doc |-> Plain],
  [bad |-> FALSE, layout |-> 0, doc |-> <<El("svg", 0, <<Ns>>), El("g", 1, <<At("id", "a")>>)>>],
  [bad |-> FALSE, layout |-> 1, doc |-> <<El("svg", 0, <<Ns>>), El("g", 1, <<At("aria-label", Wide), At("id", "b")>>), El("foo", 2, <<>>)>>],
  [bad |-> TRUE,  layout |-> 0, doc |-> <<>>],
  [bad |-> FALSE, layout |-> 2, doc |-> <<El("svg", 0, <<Ns, At("version", "1.1")>>), El("rect", 1, <<At("stroke-width", "1"), At("x", "q"), At("aria-label", Wide), At("d", "M0 0h1!2h3")>>), El("path", 1, <<At("d", "M0 0h1!2h3"), At("foo", "1")>>)>>],
  [bad |-> FALSE, layout |-> 3, doc |-> <<El("svg", 0, <<Ns>>)>> \o [j \in 1..9 |-> El("g", 1, <<At("id", "a" \o ToString(j)), At("foo", "1")>>)]],
  [bad |-> FALSE, layout |-> 1, doc |-> Plain],
  [bad |-> TRUE,  layout |-> 1, doc |-> <<>>] >>
NoText == 0
Problems0(t, rules) == IF t = NoText \/ Texts[t].bad THEN {} ELSE Problems(Texts[t].doc, rules)

(* the text of a document after the notices 1..n; nothing when it is not open *)
RECURSIVE TextAfter(_, _, _)
TextAfter(h, u, n) == IF n = 0 THEN NoText
  ELSE IF h[n].doc # u THEN TextAfter(h, u, n - 1)
  ELSE IF h[n].op = "close" THEN NoText ELSE h[n].text
IsOpen(h, u, n) == TextAfter(h, u, n) # NoText

Notice(op, u, t) == [op |-> op, doc |-> u, text |-> t]
Init == history = <<>> /\ taken = 0 /\ told = [u \in Docs |-> NoText]
Send == Len(history) < Depth /\ \E u \in Docs, t \in Held :
          \/ ~IsOpen(history, u, Len(history)) /\ history' = Append(history, Notice("open", u, t))
          \/ IsOpen(history, u, Len(history)) /\ history' = Append(history, Notice("change", u, t))
          \/ IsOpen(history, u, Len(history)) /\ history' = Append(history, Notice("close", u, NoText))
Take == /\ taken < Len(history)
        /\ taken' = taken + 1
        /\ LET m == history[taken + 1] IN told' = IF m.op = "close" THEN told ELSE [told EXCEPT ![m.doc] = m.text]
        /\ UNCHANGED history
Next == (Send /\ UNCHANGED <<taken, told>>) \/ Take
Spec == Init /\ [][Next]_<<history, taken, told>> /\ WF_<<history, taken, told>>(Take)

(* what is shown is what the server has last dealt with, and in the end the latest text *)
Behind == \A u \in Docs : IsOpen(history, u, taken) => told[u] = TextAfter(history, u, taken)
Settled == taken = Len(history) => \A u \in Docs : IsOpen(history, u, taken) => Problems0(told[u], Recommended) = Problems0(TextAfter(history, u, Len(history)), Recommended)
CatchesUp == []<>(taken = Len(history))
=============================================================================
