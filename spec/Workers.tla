------------------------------- MODULE Workers -------------------------------
(* Workers sharing out the files of a command.  Each takes a file nobody has taken, reads it, and
   writes its result; all inputs are gone through one after another.  Whatever the number of workers and
   the order they run in, the end is the one Files describes. *)
EXTENDS Files

CONSTANTS Threads

Tree == [p \in {<<"a.svg">>, <<"d">>, <<"d", "b.svg">>, <<"d", "c.svg">>, <<"d", "x">>, <<"d", "x", "e.svg">>, <<"d", ".h.svg">>, <<"o">>} |->
   CASE p = <<"a.svg">> -> <<"svg", "1">> [] p = <<"d", "b.svg">> -> <<"svg", "2">> [] p = <<"d", "c.svg">> -> <<"bad", "3">>
     [] p = <<"d", "x", "e.svg">> -> <<"svg", "4">> [] p = <<"d", ".h.svg">> -> <<"svg", "5">> [] OTHER -> <<"dir">>]
Commands == {c \in [inputs : {<<<<"d">>>>, <<<<"a.svg">>, <<"d">>>>, <<<<"d">>, <<"a.svg">>>>, <<<<"a.svg">>>>}, recursive : BOOLEAN, hidden : BOOLEAN, noIgnore : {FALSE},
                     out : {"stdout", "inplace", "to"}, to : {<<"o">>, <<"n">>, <<"n", "m">>}] : Sound(Tree, c) /\ (c.out # "to" => c.to = <<"o">>)}

VARIABLES cmd, turn, todo, hands, fs, printed, failed
vars == <<cmd, turn, todo, hands, fs, printed, failed>>
NoJob == <<0, <<>>>>

Init == /\ cmd \in Commands /\ turn = 1 /\ todo = Stands(Tree, cmd, cmd.inputs[1])
        /\ hands = [t \in Threads |-> <<NoJob, "">>] /\ fs = Tree /\ printed = <<>> /\ failed = {}
Take(t) == /\ hands[t][1] = NoJob /\ \E q \in todo :
              /\ todo' = todo \ {q}
              /\ hands' = [hands EXCEPT ![t] = <<<<turn, q>>, fs[q]>>]       \* taken and read
           /\ UNCHANGED <<cmd, turn, fs, printed, failed>>
Finish(t) == LET job == hands[t][1]
                 read == hands[t][2]
                 d == Dest(Tree, cmd, job)
             IN  /\ job # NoJob
                 /\ hands' = [hands EXCEPT ![t] = <<NoJob, "">>]
                 /\ IF read[1] # "svg" \/ (d # <<>> /\ ~Writable(fs, d)) THEN failed' = failed \cup {job} /\ UNCHANGED <<fs, printed>>
                    ELSE IF d = <<>> THEN printed' = Append(printed, read[2]) /\ UNCHANGED <<fs, failed>>
                    ELSE fs' = Put(fs, d, Done(read[2])) /\ UNCHANGED <<printed, failed>>
                 /\ UNCHANGED <<cmd, turn, todo>>
Turn == /\ todo = {} /\ \A t \in Threads : hands[t][1] = NoJob
        /\ turn < Len(cmd.inputs) /\ turn' = turn + 1 /\ todo' = Stands(fs, cmd, cmd.inputs[turn + 1])
        /\ UNCHANGED <<cmd, hands, fs, printed, failed>>
Next == Turn \/ \E t \in Threads : Take(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

AtEnd == turn = Len(cmd.inputs) /\ todo = {} /\ \A t \in Threads : hands[t][1] = NoJob
EndsAsSaid == AtEnd => /\ fs = After(Tree, cmd)
                       /\ {printed[k] : k \in 1..Len(printed)} = Printed(Tree, cmd) /\ Cardinality(Printed(Tree, cmd)) = Len(printed)
                       /\ failed = {x \in Jobs(Tree, cmd) : Fails(Tree, cmd, x)}
(* At every moment, also were it to stop here: every place holds what it held or the result of its own file. *)
NeverWrong == \A p \in DOMAIN fs : (p \in DOMAIN Tree /\ fs[p] = Tree[p]) \/ fs[p] = <<"dir">>
                  \/ \E x \in Good(Tree, cmd) : cmd.out # "stdout" /\ Dest(Tree, cmd, x) = p /\ fs[p] = Done(Tree[x[2]][2])
=============================================================================
