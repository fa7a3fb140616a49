----------------------------- MODULE LintTrace -----------------------------
(* What the linter reported for each document, against Lint.tla. *)
EXTENDS Lint, Integers, Json, IOUtils
VARIABLES i, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
SetOf(x) == {x[k] : k \in DOMAIN x}
Complain(n, why, what) == PrintT("@@" \o ToJson([rec |-> n, why |-> why, what |-> what]))
Expect(ok, n, why, what) == IF ok THEN TRUE ELSE Complain(n, why, ToString(what))
Pairs(s) == [k \in DOMAIN s |-> s[k]]
(* r: [doc, rules, problems, errors, warnings, result, printed, via, level, code]
   problems: [kind, node, attr, names, part, severity]; printed: [severity, at, node, attr, words, shown] *)
Same(o, e) == o.kind = e.kind /\ o.node = e.node /\ o.attr = e.attr /\ o.names = e.names /\ o.severity = e.severity /\ (o.part = e.part \/ (e.part = "tail" /\ o.part = "value"))
At(p) == CASE p.part \in {"whole", "name"} -> "name" [] p.part = "value" -> "value" [] p.part = "elem" -> "elem" [] OTHER -> p.part
Words(p) == CASE p.kind \in {"unknown-attribute", "unknown-element", "deprecated-element", "deprecated-attribute", "default", "invalid", "unused-id"} -> p.names [] OTHER -> <<>>
Prints(o, p) == o.severity = p.severity /\ o.node = p.node /\ (p.attr = 0 \/ o.attr = p.attr) /\ (o.at = At(p) \/ (At(p) = "tail" /\ o.at = "value"))
                /\ (Words(p) = <<>> \/ o.words = Words(p))
Count(s, sev) == Cardinality({k \in DOMAIN s : s[k].severity = sev})
Check(n) ==
  LET r == Recs[n]
      want == Problems(r.doc, r.rules)
      may == Allowed(r.doc, r.rules)
      got == r.problems
      listed == r.via = "library"
      errors == Count(IF listed THEN got ELSE r.printed, "error")
      warnings == Count(IF listed THEN got ELSE r.printed, "warn")
  IN
  /\ Expect(r.result # "failed", n, "the linter did not finish", r.result)
  /\ listed =>
     /\ \A w \in want : Expect(\E k \in DOMAIN got : Same(got[k], w), n, "a problem is not reported", w)
     /\ \A k \in DOMAIN got : Expect(\E w \in may : Same(got[k], w), n, "something else is reported", got[k])
     /\ \A k, l \in DOMAIN got : Expect(k = l \/ got[k] # got[l], n, "a problem is reported twice", got[k])
     /\ Expect(r.errors = errors /\ r.warnings = warnings, n, "the totals are wrong", <<r.errors, r.warnings, errors, warnings>>)
     /\ Expect((r.result = "ok") = (Len(got) = 0), n, "success does not match the problems", r.result)
     /\ Expect(Len(r.printed) = Len(got), n, "not as many problems printed as reported", Len(r.printed))
  /\ \A w \in want : Expect(\E k \in DOMAIN r.printed : Prints(r.printed[k], w), n, "a problem is not printed", w)
  /\ \A k \in DOMAIN r.printed : /\ Expect(\E w \in may : Prints(r.printed[k], w), n, "something else is printed", r.printed[k])
                                 /\ Expect(r.printed[k].shown, n, "another line is shown", r.printed[k])
  /\ ~listed => Expect((r.code # 0) = Fails(r.level, errors, warnings), n, "the exit code is wrong", <<r.code, r.level, errors, warnings>>)
Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
