------------------------------ MODULE GenLsp ------------------------------
(* Sessions with the server. *)
EXTENDS Lsp, Json
(* every session of the given length; a close may be anywhere, a text may come back *)
ASSUME PrintT("@@" \o ToJson([texts |-> Texts]))
Emit == PrintT("@@" \o ToJson([history |-> history']))
GenNext == Send /\ UNCHANGED <<taken, told>> /\ (IF Len(history') = Depth THEN Emit ELSE TRUE)
GenSpec == Init /\ [][GenNext]_<<history, taken, told>>
Pick(S) == {RandomElement(S)}
RandSend == Len(history) < Depth /\ \E u \in Pick(Docs), t \in Pick(Held), k \in Pick(1..6) :
   history' = Append(history, IF ~IsOpen(history, u, Len(history)) THEN Notice("open", u, t) ELSE IF k = 1 THEN Notice("close", u, NoText) ELSE Notice("change", u, t))
RandNext == RandSend /\ UNCHANGED <<taken, told>> /\ (IF Len(history') = Depth THEN Emit ELSE TRUE)
RandSpec == Init /\ [][RandNext]_<<history, taken, told>>
=============================================================================
