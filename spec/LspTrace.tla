----------------------------- MODULE LspTrace -----------------------------
(* Sessions recorded from the real server, against Lsp.tla.
   A record is [history, rules, died, seen]; seen: what an editor has on show at certain points, [after, shown], shown a sequence of
   [doc, items], an item [node, attr, part, severity, words, source], placed in the text the document had at that point. *)
EXTENDS Lsp, Integers, Json, IOUtils
VARIABLES i, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
Complain(n, why, what) == PrintT("@@" \o ToJson([rec |-> n, why |-> why, what |-> what]))
Expect(ok, n, why, what) == IF ok THEN TRUE ELSE Complain(n, why, ToString(what))
Words(p) == CASE p.kind \in {"unknown-attribute", "unknown-element", "deprecated-element", "deprecated-attribute", "default", "invalid", "unused-id"} -> p.names [] OTHER -> <<>>
Same(o, p) == o.severity = p.severity /\ o.node = p.node /\ o.attr = p.attr /\ (o.part = p.part \/ (p.part = "tail" /\ o.part = "value")) /\ (Words(p) = <<>> \/ o.words = Words(p))
ItemsOf(s, u) == LET hit == {k \in DOMAIN s.shown : s.shown[k].doc = u} IN IF hit = {} THEN <<>> ELSE s.shown[CHOOSE k \in hit : TRUE].items
Check(n) ==
  LET r == Recs[n] IN
  /\ Expect(~r.died, n, "the server ended", "")
  /\ \A k \in DOMAIN r.seen : LET s == r.seen[k] IN
     /\ \A j \in DOMAIN s.shown : Expect(s.shown[j].doc \in {r.history[m].doc : m \in 1..s.after}, n, "a document that was never opened is told of", s.shown[j].doc)
     /\ \A u \in {r.history[m].doc : m \in 1..s.after} : IsOpen(r.history, u, s.after) =>
        LET t == TextAfter(r.history, u, s.after)
            want == Problems0(t, r.rules)
            got == ItemsOf(s, u)
        IN /\ \A w \in want : Expect(\E m \in DOMAIN got : Same(got[m], w), n, "a problem is not shown", <<u, s.after, w>>)
           /\ \A m \in DOMAIN got : Expect(\E w \in want : Same(got[m], w), n, "something else is shown", <<u, s.after, got[m]>>)
           /\ Expect(Len(got) = Cardinality(want), n, "not as many problems are shown as there are", <<u, s.after, Len(got), Cardinality(want)>>)
TInit == i = 0 /\ done = FALSE /\ history = <<>> /\ taken = 0 /\ told = <<>>
TNext == /\ \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
            \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ UNCHANGED i
         /\ UNCHANGED <<history, taken, told>>
TSpec == TInit /\ [][TNext]_<<i, done, history, taken, told>>
=============================================================================
