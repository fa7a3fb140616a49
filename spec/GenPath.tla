------------------------------ MODULE GenPath -------------------------------
(* Path data: sequences of commands in absolute and relative form, with the     *)
(* ways of painting under which different parts of an outline can be seen.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCmds
VARIABLES cmds, paint

Cmds == <<
  "l10 0", "l0 10", "l5 5", "l-10 0", "l0 0", "L10 10", "L20 0", "L30 40",
  "h10", "h-5", "H0", "v10", "v-5", "V10", "h0",
  "c0 5 5 10 10 10", "c2 8 12 -3 20 0", "C0 10 10 30 20 20", "c3 0 7 0 10 0", "s5 5 10 10", "S20 20 30 20",
  "q5 9 10 0", "Q10 10 20 0", "q5 0 10 0", "t10 0", "T30 0",
  "a5 5 0 0 1 10 0", "A15 15 0 0 0 20 0", "a6 4 0 1 0 0 8", "a0 5 0 0 0 10 0",
  "z", "Z", "m5 5", "M20 20", "m0 0", "m5 5 5 0", "M1 2 3 4" >>
\* the ways of writing numbers, flags and repeated commands
Written == <<
  "l.5.5.25.75", "h1e1 ", "l-.5-.5", "V-2.5", "H5 15", "l5 5 5-5", "L+5,15 , 25 5",
  "c.5.5 1.5 2 2.25 2.5", "Q15 0 20 10 25 20 30 10", "c0 5 5 10 10 10 0-5 5-10 10-10", "s2 6 8 9 2 6 8 9",
  "a5 5 0 0110 0", "A15 15 0 1120 0 15 15 0 0 0 30 5", "a2.5 2.5 0 01.5 2", "t5 5 5-2.5" >>
\* what follows an error is ignored
Errors == << "l5", "k1 2", "a5 5 0 2 0 5 5", "l1,,2", "5", "v-", "c1 2 3 4 5" >>
Paints == [
  fill   |-> "",
  line   |-> "fill='none' stroke='red'",
  both   |-> "stroke='red'",
  round  |-> "fill='none' stroke='red' stroke-linecap='round'",
  square |-> "fill='none' stroke='red' stroke-linecap='square' stroke-linejoin='round'",
  marks  |-> "marker-start='url(#mr)' marker-mid='url(#mr)' marker-end='url(#mr)'",
  ends   |-> "marker-start='url(#mr)' marker-end='url(#mr)'",
  end    |-> "marker-end='url(#mr)'",
  mid    |-> "stroke='red' marker-mid='url(#mr)'"
]
AllCmds == Cmds \o Written \o Errors
Sound == Len(Cmds) + Len(Written)
Common(cs) == \A j \in DOMAIN cs : cs[j] <= Len(Cmds)
Emit(cs, p) == PrintT("@@" \o ToJson([d |-> [i \in DOMAIN cs |-> AllCmds[cs[i]]], paint |-> Paints[p]]))

Init == cmds = <<>> /\ paint \in DOMAIN Paints
Grow == /\ Len(cmds) < MaxCmds
        /\ \E i \in DOMAIN AllCmds :
             /\ Len(cmds) > 0 => cmds[Len(cmds)] <= Sound
             /\ cmds' = Append(cmds, i)
             /\ Len(cmds') > 2 => Common(cmds) /\ (i <= Len(Cmds) \/ i > Sound)
             /\ Emit(cmds', paint)
        /\ UNCHANGED paint
Spec == Init /\ [][Grow]_<<cmds, paint>>

Roam == /\ \E i \in {RandomElement(1..Sound)} : cmds' = Append(cmds, i)
        /\ Len(cmds') >= 4 => Emit(cmds', paint)
        /\ UNCHANGED paint
RoamSpec == Init /\ [][Roam]_<<cmds, paint>>
=============================================================================
