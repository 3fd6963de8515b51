----------------------------- MODULE FormsTrace -----------------------------
(* Recorded conversions against Forms, one step per conversion.            *)
EXTENDS Forms, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.CONF_TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = ""
Here == Trace[l]
Convert == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ \E want \in {Form(Here.kind, Here.txt)} :
                IF Here.out = want THEN UNCHANGED bad
                ELSE /\ bad' = "differs"
                     /\ PrintT("REJECTED " \o ToString(l) \o " | " \o Here.kind \o " of a text gives something else")
                     /\ PrintT(<<"DETAIL", Here, want>>)
Next == Convert \/ (l > Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Brief == [l |-> l, bad |-> bad]
=============================================================================
