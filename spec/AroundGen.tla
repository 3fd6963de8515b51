------------------------------ MODULE AroundGen -----------------------------
(* Writes the documents of Around: of one property (AROUND_OF) or all,     *)
(* with as many circumstances as asked for (AROUND_STEPS).                 *)
EXTENDS Around, Json, IOUtils
Asked == IF IOEnv.AROUND_OF = "all" THEN DOMAIN Bases ELSE {IOEnv.AROUND_OF}
Digit == CHOOSE n \in 0..9 : ToString(n) = IOEnv.AROUND_STEPS
OnlyClose == IOEnv.AROUND_CLOSE # ""
OneByOne == IOEnv.AROUND_CLOSE = "mixed"
HowMany == {Digit}
Line == [txt |-> Text(doc), rule |-> rule] @@ (IF IOEnv.AROUND_MORE = "" THEN [x \in {} |-> ""] ELSE [orders |-> Map(Orders(doc), Text), others |-> Map(Others(doc), Text)])
Written ==
  ~out \/ Serialize(ToJsonObject(Line) \o "\n", IOEnv.AROUND_OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
