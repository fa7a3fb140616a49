-------------------------------- MODULE Files --------------------------------
(* The command applied to files and directories: what is selected, where each result goes, and any
   number of workers doing it in any order. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

(* A file system is a function from paths (sequences of names) to entries:
   "dir", or <<kind, content>> with kind in svg (fine), bad (not well-formed), bin (not text), other (some
   other type of file), or <<"rules", names>>: a file of names to ignore, in effect for all below its directory. *)
IsDir(fs, p) == p = <<>> \/ (p \in DOMAIN fs /\ fs[p] = <<"dir">>)
IsFile(fs, p) == p \in DOMAIN fs /\ fs[p] # <<"dir">>
LastOf(p) == p[Len(p)]
Hidden(n) == n \in {".h.svg", ".g", ".ignore", ".gitignore", ".git"}
Svg(n) == n \in {"a.svg", "b.svg", "c.svg", "e.svg", ".h.svg"}
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p

(* Names to ignore: <<directory, name>> for each rule of each file of rules that counts. *)
Rules(fs, cmd) ==
  IF cmd.noIgnore THEN {}
  ELSE UNION {{<<Front(r), n>> : n \in {fs[r][2][k] : k \in 1..Len(fs[r][2])}} :
         r \in {r \in DOMAIN fs : fs[r][1] = "rules" /\ (LastOf(r) = ".ignore" \/ <<".git">> \in DOMAIN fs)}}
Ignored(rules, q, from) ==
  \E k \in (from + 1)..Len(q) : \E r \in rules : r[2] = q[k] /\ Len(r[1]) < k /\ SubSeq(q, 1, Len(r[1])) = r[1]

(* The files one input stands for: itself, or what the directory holds. *)
Stands(fs, cmd, p) ==
  IF IsFile(fs, p) THEN (IF Svg(LastOf(p)) /\ fs[p][1] # "rules" THEN {p} ELSE {})
  ELSE IF ~IsDir(fs, p) THEN {}
  ELSE LET rules == Rules(fs, cmd)
       IN  {q \in DOMAIN fs : /\ IsFile(fs, q) /\ Below(p, q) /\ Svg(LastOf(q))
                              /\ (cmd.recursive \/ Len(q) = Len(p) + 1)
                              /\ (cmd.hidden \/ \A k \in (Len(p) + 1)..Len(q) : ~Hidden(q[k]))
                              /\ ~Ignored(rules, q, Len(p))}
Missing(fs, cmd) == {k \in 1..Len(cmd.inputs) : cmd.inputs[k] \notin DOMAIN fs}
Jobs(fs, cmd) == UNION {{<<k, q>> : q \in Stands(fs, cmd, cmd.inputs[k])} : k \in 1..Len(cmd.inputs)}

(* Where the result of a file goes; <<>> is the standard output. *)
Dest(fs, cmd, job) ==
  LET p == cmd.inputs[job[1]]
      q == job[2]
  IN  CASE cmd.out = "stdout" -> <<>>
        [] cmd.out = "inplace" -> q
        [] OTHER -> IF q # p THEN cmd.to \o SubSeq(q, Len(p) + 1, Len(q))
                    ELSE IF IsDir(fs, cmd.to) \/ Len(cmd.inputs) > 1 THEN Append(cmd.to, LastOf(q)) ELSE cmd.to

(* A place that can be written: not a directory, and nothing on the way to it is a file. *)
Writable(fs, d) == ~IsDir(fs, d) /\ \A k \in 1..(Len(d) - 1) : ~IsFile(fs, SubSeq(d, 1, k))
Fails(fs, cmd, job) == fs[job[2]][1] # "svg" \/ (Dest(fs, cmd, job) # <<>> /\ ~Writable(fs, Dest(fs, cmd, job)))

(* Commands whose meaning does not hang on an order: no two results for one place, and no result
   where another input is, or where it would become one. *)
Sound(fs, cmd) ==
  LET js == Jobs(fs, cmd) IN
  /\ \A x, y \in js : x # y => x[2] # y[2] /\ (cmd.out # "stdout" => Dest(fs, cmd, x) # Dest(fs, cmd, y))
  /\ \A x, y \in js : x # y /\ cmd.out # "stdout" => Dest(fs, cmd, x) # y[2]
  /\ \A x \in js, k \in 1..Len(cmd.inputs) : cmd.out = "to" /\ IsDir(fs, cmd.inputs[k]) => ~(Below(cmd.inputs[k], Dest(fs, cmd, x))) \/ Dest(fs, cmd, x) = x[2]
  /\ \A x, y \in js : x # y /\ cmd.out # "stdout" => ~Below(Dest(fs, cmd, x), Dest(fs, cmd, y))

Done(content) == <<"done", content>>
Parents(d) == {SubSeq(d, 1, k) : k \in 1..(Len(d) - 1)}
Put(fs, d, c) == [q \in DOMAIN fs \cup {d} \cup Parents(d) |-> IF q = d THEN c ELSE IF q \in DOMAIN fs THEN fs[q] ELSE <<"dir">>]

(* What there is to be in the end, told without any order. *)
Good(fs, cmd) == {x \in Jobs(fs, cmd) : ~Fails(fs, cmd, x)}
After(fs, cmd) ==
  LET good == Good(fs, cmd)
      ds == IF cmd.out = "stdout" THEN {} ELSE {Dest(fs, cmd, x) : x \in good}
      by(d) == CHOOSE x \in good : Dest(fs, cmd, x) = d
      \* a file that can't be written because of what is in the way may leave the directories before it
  IN  [q \in DOMAIN fs \cup ds \cup UNION {Parents(d) : d \in ds} |->
          IF q \in ds THEN Done(fs[by(q)[2]][2]) ELSE IF q \in DOMAIN fs THEN fs[q] ELSE <<"dir">>]
Printed(fs, cmd) == IF cmd.out = "stdout" THEN {fs[x[2]][2] : x \in Good(fs, cmd)} ELSE {}
Reported(fs, cmd) == Missing(fs, cmd) # {} \/ \E x \in Jobs(fs, cmd) : Fails(fs, cmd, x)
=============================================================================
