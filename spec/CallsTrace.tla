----------------------------- MODULE CallsTrace -----------------------------
(* Recorded calls against Calls.  A line of the trace is a session: the    *)
(* calls made to the library, each with its process, entry point, text and *)
(* result.  Calls of one process stand in the order in which they were     *)
(* made; calls of different processes are not ordered.  Each is replayed   *)
(* as Call, then Return.                                                   *)
EXTENDS Calls, Json, IOUtils

PROP == IOEnv.CONF_PROP
Trace == ndJsonDeserialize(IOEnv.CONF_TRACE)
TProcs == 0..99
TTexts == STRING
TResults == STRING
TApis == {"checked", "unchecked"}
TLost == {"panic", "hang", "crash"}

VARIABLES ses,            \* the session
          l,              \* the call being replayed
          bad
vars == <<cvars, ses, l, bad>>
Init == CallsInit /\ ses \in 1..Len(Trace) /\ l = 1 /\ bad = ""
Ongoing == l <= Len(Trace[ses].calls)
Here == Trace[ses].calls[l]

Issue == /\ Ongoing /\ pend[Here.p] = <<>>
         /\ Call(Here.p, Here.api, Here.doc)
         /\ UNCHANGED <<ses, l, bad>>

Tell(why) == PrintT("REJECTED " \o Here.doc \o " | " \o why) /\ PrintT(<<"DETAIL", Here>>)

Complete == /\ Ongoing /\ pend[Here.p] # <<>>
            /\ Return(Here.p, Here.res)
            /\ l' = l + 1
            /\ UNCHANGED <<ses, bad>>

(* A call that is no behaviour of Calls is reported and passed over.       *)
Refuse ==
  /\ Ongoing /\ pend[Here.p] # <<>>
  /\ ~(Here.res \notin Lost /\ Agrees(pend[Here.p], Here.res))
  /\ LET lost == Here.res \in Lost
     IN CASE lost /\ PROP = "C01" -> Tell("a call does not return: " \o Here.res) /\ bad' = "lost"
          [] ~lost /\ PROP = "C11" -> Tell("the same call returns something else") /\ bad' = "differs"
          [] OTHER -> UNCHANGED bad
  /\ pend' = [pend EXCEPT ![Here.p] = <<>>]
  /\ l' = l + 1
  /\ UNCHANGED <<memo, ses>>

Next == Issue \/ Complete \/ Refuse \/ (~Ongoing /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Step == <<ses, l, pend, bad>>
Conforms == bad = ""
Brief == [ses |-> ses, l |-> l, bad |-> bad]
=============================================================================
