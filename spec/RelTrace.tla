------------------------------ MODULE RelTrace ------------------------------
(* Recorded relation queries against Rel.  The text is read and judged as  *)
(* in Conform; then each query about it is one step.                       *)
EXTENDS Rel, Reader, Json, IOUtils

PROP == IOEnv.CONF_PROP
Trace == ndJsonDeserialize(IOEnv.CONF_TRACE)
TLines == 1..Len(Trace)
TText(n) == Trace[n].txt

VARIABLES at, clean, q, bad
vars == <<rvars, at, clean, q, bad>>
rec == Trace[src]
Init == ReaderInit /\ at = 0 /\ clean = TRUE /\ q = 0 /\ bad = ""

Read == ReaderNext /\ UNCHANGED <<at, clean, q, bad>>

Judge == /\ ph = "accepted" /\ clean /\ at < Len(doc)
         /\ at' = at + 1
         /\ clean' = (DeclFaults(doc, at + 1, rec.low) = {} /\ (at = 0 => DocumentFaults(doc, <<0, 0>>) = {}))
         /\ UNCHANGED <<rvars, q, bad>>

(* What a query may answer, as sets of <<start, kind, left, right>>.       *)
SeenEnd(e) == <<Resolve(doc, IF e.schema = <<>> THEN <<>> ELSE <<[name |-> e.schema[1]]>>, e.table), e.cols>>
Seen(list) == Map(list, LAMBDA r : <<r.s, r.rel, SeenEnd(r.lhs), SeenEnd(r.rhs)>>)
Want(list) == Map(list, LAMBDA x : <<x.sp[1], x.rel, <<x.l.id, x.l.cols>>, <<x.r.id, x.r.cols>>>>)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A k \in 1..Len(a) : Cardinality({ m \in 1..Len(a) : a[m] = a[k] }) = Cardinality({ m \in 1..Len(b) : b[m] = a[k] })

Answer(x) ==
  LET id == <<IF x.schema = <<>> THEN Public ELSE x.schema[1], x.name>>
      there == id \in TableIds(doc)
  IN IF x.res.st # "ok" THEN IF there THEN "a query about a table fails" ELSE ""
     ELSE IF ~there
          THEN IF x.res.to = <<>> /\ x.res.by = <<>> /\ x.res.self = <<>> THEN "" ELSE "relationships of a table that is not there"
     ELSE IF ~SameBag(Seen(x.res.to), Want(Found(doc, id, "to"))) THEN "other outgoing relationships"
     ELSE IF ~SameBag(Seen(x.res.by), Want(Found(doc, id, "by"))) THEN "other incoming relationships"
     ELSE IF ~SameBag(Seen(x.res.self), Want(Found(doc, id, "self"))) THEN "other self relationships"
     ELSE ""

Ask == /\ ph = "accepted" /\ clean /\ at = Len(doc) /\ q < Len(rec.q) /\ bad = "" /\ rec.st = "ok"
       /\ q' = q + 1
       /\ bad' = Answer(rec.q[q + 1])
       /\ IF bad' = "" THEN TRUE
          ELSE PrintT("REJECTED " \o rec.id \o " | " \o bad') /\ PrintT(<<"DETAIL", rec.id, rec.q[q + 1]>>)
       /\ UNCHANGED <<rvars, at, clean>>

AskNot == /\ ph = "accepted" /\ clean /\ at = Len(doc) /\ q = 0 /\ bad = "" /\ rec.st # "ok"
          /\ bad' = "a well-formed text is not accepted"
          /\ PrintT("REJECTED " \o rec.id \o " | " \o bad')
          /\ UNCHANGED <<rvars, at, clean, q>>

Done == \/ bad # "" \/ ph = "rejected" \/ (ph = "accepted" /\ ~clean)
        \/ ph = "accepted" /\ at = Len(doc) /\ q = Len(rec.q)
Next == Read \/ Judge \/ Ask \/ AskNot \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Step == <<src, pos, ph, at, clean, q, bad>>
Conforms == bad = ""
Brief == [id |-> rec.id, pos |-> pos, ph |-> ph, at |-> at, q |-> q, bad |-> bad]
Classified == ph = "accepted" /\ clean /\ at = Len(doc) /\ q = 0 => \A id \in TableIds(doc) : Partition(doc, id)
=============================================================================
