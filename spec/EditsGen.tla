------------------------------ MODULE EditsGen ------------------------------
(* Writes the documents an author hands out, each with other orders of its *)
(* declarations and other ways to write it.                                *)
EXTENDS Edits, Json, IOUtils
AllStarts == 1..Len(Start)
Digit == CHOOSE n \in 0..9 : ToString(n) = IOEnv.EDITS_STEPS
HowMany == IF Digit < 2 THEN {Digit} ELSE 2..Digit
Line == [txt |-> Text(doc), orders |-> Map(Orders(doc), Text), others |-> Map(Others(doc), Text)]
Written ==
  ~out \/ Serialize(ToJsonObject(Line) \o "\n", IOEnv.EDITS_OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
