---------------------------- MODULE SourcesTrace ----------------------------
(* Runs of the command against the precedence of Sources.tla. *)
EXTENDS Sources, Integers, Json, IOUtils
VARIABLES i, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
SetOf(x) == {x[k] : k \in DOMAIN x}
Complain(n, why, what) == PrintT("@@" \o ToJson([rec |-> n, why |-> why, what |-> what]))
Expect(ok, n, why, what) == IF ok THEN TRUE ELSE Complain(n, why, ToString(what))
(* r: [case, op, fails, wrote, marks, untouched, nothing]; wrote: some result was written or printed *)
Failed(r) == r.fails /\ ~r.wrote
Check(n) ==
  LET r == Recs[n]
      v == Verdict(r.case)
  IN
  /\ Expect(r.untouched, n, "a file the run does not concern was changed", r.op)
  /\ CASE v = "fail" -> /\ Expect(r.fails, n, "the command does not fail", SetOf(r.marks))
                        /\ Expect(~r.wrote, n, "a result was written", SetOf(r.marks))
       [] v = "either" /\ r.fails -> Expect(~r.wrote, n, "a result was written", SetOf(r.marks))
       [] OTHER -> /\ Expect(~r.fails, n, "the command fails", "")
                   /\ Expect(r.fails \/ SetOf(r.marks) \cap Told(r.op) = Marks(InEffect(r.case), r.op), n, "other options are in effect", [jobs |-> SetOf(r.marks), expected |-> Marks(InEffect(r.case), r.op)])
Init == i = 0 /\ done = FALSE
Next == \/ i = 0 /\ i' \in 1..Len(Recs) /\ UNCHANGED done
        \/ i > 0 /\ ~done /\ Check(i) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
