------------------------------- MODULE Conform ------------------------------
(* Validation of what the library was observed to do.  Each line of the    *)
(* trace is one text with the outcomes of the unchecked (u) and the        *)
(* checked parse (c).  The specification reads the text with the actions   *)
(* of Reader, consuming one observed block per declaration, then judges    *)
(* the declarations one by one, and compares the verdicts.  A trace that   *)
(* the specification cannot follow ends with bad # "".                     *)
EXTENDS Reader, Json, IOUtils

PROP == IOEnv.CONF_PROP
Trace == ndJsonDeserialize(IOEnv.CONF_TRACE)
TLines == 1..Len(Trace)
TText(l) == Trace[l].txt

VARIABLES at,       \* declarations judged so far
          faults,   \* the faults found in them
          bad       \* "" or why the trace is rejected
vars == <<rvars, at, faults, bad>>

rec == Trace[src]
Text == rec.txt
SyntaxProps == {"C02", "C03", "C04", "C05", "C06", "C07", "C08"}
RuleProps == {"C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}
PairProps == {"C09", "C26", "C28"}
Judged == RuleProps \cup {"C23", "C27"}

Init == ReaderInit /\ at = 0 /\ faults = {} /\ bad = ""

(* ------------------------------- reading ------------------------------- *)
SpansMatch(d, got) ==
  LET want == Spans(d)
      inside(k) == LET g == got[k]
                       p == IF g.up = 0 THEN [s |-> 0, e |-> Len(Text)] ELSE got[k - g.up]
                   IN /\ p.s <= g.s /\ g.e <= p.e /\ 0 <= g.s /\ g.s <= g.e
                      /\ g.raw # <<>> => g.raw[1] = Sub(Text, g.s + 1, g.e)
  IN /\ \A k \in 1..Len(got) : inside(k)
     /\ Len(got) = Len(want) =>
          \A k \in 1..Len(got) : SpanFits(Text, want[k].sp, got[k].s, got[k].e)

Follows(d) ==       \* the observed tree has this declaration here
  IF PROP \notin SyntaxProps \/ PROP = "C02" \/ rec.u.st # "ok" THEN ""
  ELSE LET n == Len(doc) + 1 IN
       IF n > Len(rec.u.blocks) THEN "a declaration is missing from the tree"
       ELSE LET b == rec.u.blocks[n] IN
            IF PROP = "C08"
            THEN IF b.k # d.k THEN "a block of another kind"
                 ELSE IF SpansMatch(d, b.s) THEN "" ELSE "the spans of a declaration differ"
            ELSE IF View(PROP, Content(d)) = View(PROP, b.c) THEN "" ELSE "a declaration has other content"

Tell(why) == PrintT("REJECTED " \o rec.id \o " | " \o why)
Shown(p, d) == IF p = "C08" THEN Spans(d) ELSE View(p, Content(d))
Got(p, n) == IF n > Len(rec.u.blocks) THEN "none"
             ELSE IF p = "C08" THEN rec.u.blocks[n].s ELSE View(p, rec.u.blocks[n].c)
ObserveRead(d) ==
  /\ ReadWith(d)
  /\ bad' = Follows(d.n)
  /\ IF bad' = "" THEN TRUE
     ELSE /\ Tell(bad')
          /\ PrintT(<<"DETAIL", rec.id, Len(doc) + 1, Shown(PROP, d.n), Got(PROP, Len(doc) + 1)>>)
  /\ UNCHANGED <<at, faults>>

Accessors == { "project", "table", "group", "ref", "enum" }
AccessorsOk ==
  \A a \in Accessors :
    LET got == rec.u.acc[a]
        want == { k \in 1..Len(doc) : doc[k].k = a }
    IN Range(got) = want /\ Len(got) = Cardinality(want) /\ \A k \in 1..(Len(got) - 1) : got[k] < got[k + 1]

(* A text that is not accepted has none of its parts returned: whether the *)
(* property speaks of such parts at all.                                    *)
Concerns ==
  CASE PROP = "C08" -> FALSE
    [] PROP = "C04" -> \E k \in 1..Len(Text) : Ch(Text, k) \in {"[", ":"}
    [] PROP = "C06" -> \E k \in 1..Len(doc) : doc[k].k = "table" /\ doc[k].cols # <<>>
    [] PROP = "C07" -> \E k \in 1..Len(doc) : RefsOf(doc, k) # <<>>
    [] OTHER -> TRUE

ReadVerdict(ok) ==
  CASE PROP = "C01" -> IF rec.u.st \in {"ok", "err"} /\ rec.c.st \in {"ok", "err"} THEN ""
                       ELSE "a parse did not return"
    [] PROP \in SyntaxProps ->
         IF ok /\ rec.u.st # "ok" THEN IF Concerns THEN "a well-formed text is not accepted" ELSE ""
         ELSE IF ~ok /\ rec.u.st # "err"
              THEN IF PROP = "C02" \/ rec.u.st # "ok" THEN "an ill-formed text is not rejected" ELSE ""
         ELSE IF ~ok THEN ""
         ELSE IF PROP # "C02" /\ Len(rec.u.blocks) # Len(doc) THEN "the tree has more blocks than the text"
         ELSE IF PROP = "C03" /\ ~AccessorsOk THEN "an accessor does not return the blocks of its kind"
         ELSE IF PROP = "C08" /\ ~(rec.u.span = <<0, Len(Text)>> /\ rec.u.input) THEN "the schema does not cover the input"
         ELSE ""
    [] PROP = "C10" ->
         IF rec.u.st = "ok"
         THEN CASE rec.c.st = "ok" -> IF rec.c.dig = rec.u.dig THEN "" ELSE "the checked tree differs"
                [] rec.c.st = "err" -> IF rec.c.err.custom THEN "" ELSE "the checked parse fails with a syntax error"
                [] OTHER -> "the checked parse does not return"
         ELSE IF rec.u.st = "err"
              THEN IF rec.c.st = "err" /\ rec.c.dig = rec.u.dig THEN "" ELSE "the checked parse does not fail alike"
              ELSE ""
    [] OTHER -> ""

Report(why) == IF why = "" THEN TRUE ELSE Tell(why) /\ PrintT(<<"DETAIL", rec.id, rec.u.st, rec.c>>)

TraceAccept == /\ bad = "" /\ Accept
               /\ bad' = ReadVerdict(TRUE) /\ Report(bad')
               /\ UNCHANGED <<at, faults>>
ObserveReject(d) ==
  /\ RejectWith(d)
  /\ bad' = ReadVerdict(FALSE) /\ Report(bad')
  /\ UNCHANGED <<at, faults>>
TraceRead == /\ bad = "" /\ ph = "read" /\ ~AtEnd
             /\ \E d \in {Here} : ObserveRead(d) \/ ObserveReject(d)

(* ------------------------------- judging ------------------------------- *)
Judge ==
  /\ ph = "accepted" /\ bad = "" /\ PROP \in Judged /\ at < Len(doc)
  /\ at' = at + 1
  /\ faults' = faults \cup DeclFaults(doc, at + 1, rec.low)
  /\ UNCHANGED <<rvars, bad>>

Whole == <<0, Len(Text)>>
AllFaults == faults \cup DocumentFaults(doc, Whole)

RECURSIVE Mentions(_, _, _)
Mentions(msg, i, words) ==
  IF words = <<>> THEN TRUE
  ELSE LET k == Find(msg, i, words[1])
       IN k # 0 /\ Mentions(msg, k + Len(words[1]), Tail(words))
Within(r, e) == r[1] <= e.s /\ e.s <= e.e /\ e.e <= Skip(Text, r[2] + 1) - 1
Blamed(f, e) == \A n \in f.no : ~(n[1] <= e.s /\ e.e <= n[2])
Explains(f, e) == Says(e.msg, f.k) /\ Mentions(e.msg, Len(MessageOf(f.k)) + 1, f.w) /\ Within(f.r, e) /\ Blamed(f, e)
InText(e) == 0 <= e.s /\ e.s <= e.e /\ e.e <= Len(Text)

(* Tables that are not resolved rightly show in what is said about them.   *)
Entailed == IF PROP = "C19" THEN {"RefType", "RefKey", "RefConflict", "RefArity", "GroupItemTwice"} ELSE {}
Verdict ==
  LET F == AllFaults
      sure == { f \in F : f.sure }
      own == KindsOf(PROP)
      said == KindsSaid(rec.c.err.msg)
  IN CASE PROP \in RuleProps ->
            IF (\E f \in sure : f.k \in own) /\ rec.c.st # "err" THEN "a faulty document is not rejected"
            ELSE IF F = {} /\ rec.c.st \notin {"ok", "err"} THEN "a document without faults is not accepted"
            ELSE IF F = {} /\ rec.u.st = "ok" /\ rec.c.st = "err" /\ (said = {} \/ said \cap (own \cup Entailed) # {})
                 THEN "a document without faults is not accepted"
            ELSE IF rec.c.st = "err" /\ said \cap own # {} /\ ~\E f \in F : f.k \in said
                 THEN "the document is rejected for a fault it does not have"
            ELSE ""
       [] PROP = "C27" ->
            IF sure # {} /\ rec.c.st # "err" THEN "a faulty document is not rejected"
            ELSE IF F = {} /\ rec.c.st # "ok" THEN "a document without faults is not accepted"
            ELSE ""
       [] PROP = "C23" ->
            IF rec.c.st # "err" THEN ""
            ELSE IF rec.u.st # "ok" THEN IF InText(rec.c.err) /\ InText(rec.u.err) THEN "" ELSE "an error is outside the text"
            ELSE IF ~InText(rec.c.err) THEN "an error is outside the text"
            ELSE IF ~\E f \in F : Says(rec.c.err.msg, f.k) THEN "the error names a rule the document does not break"
            ELSE IF ~\E f \in F : Explains(f, rec.c.err) THEN "the error points elsewhere or names the wrong things"
            ELSE ""

ReportVerdict(why) ==
  IF why = "" THEN TRUE
  ELSE Tell(why) /\ PrintT(<<"DETAIL", rec.id, rec.u.st, rec.c, AllFaults>>)

RECURSIVE Kinds(_)
Kinds(S) == IF S = {} THEN "" ELSE LET k == CHOOSE k \in S : TRUE IN " " \o k \o Kinds(S \ {k})
(* What was judged, for the record of what a run has covered.              *)
Account == LET F == AllFaults IN
           PrintT("JUDGED" \o (IF \E f \in F : ~f.sure THEN " ?" ELSE "") \o Kinds({ f.k : f \in { f \in F : f.sure } }))

Conclude ==
  /\ ph = "accepted" /\ bad = "" /\ PROP \in Judged /\ at = Len(doc)
  /\ ph' = "done"
  /\ bad' = Verdict /\ ReportVerdict(bad') /\ Account
  /\ UNCHANGED <<src, pos, doc, at, faults>>

(* A syntax error: only its place is to be judged.                         *)
ConcludeRejected ==
  /\ ph = "rejected" /\ bad = "" /\ PROP = "C23"
  /\ ph' = "done"
  /\ bad' = (IF rec.u.st = "err" /\ rec.c.st = "err"
             THEN IF InText(rec.c.err) /\ InText(rec.u.err) THEN "" ELSE "an error is outside the text"
             ELSE "")
  /\ Report(bad')
  /\ UNCHANGED <<src, pos, doc, at, faults>>

(* ------------------------- pairs of documents -------------------------- *)
(* A line with head = h # 0 is a variant of line h.                        *)
SameMeaning(a, b) == a.ok = b.ok /\ (a.ok => /\ Len(a.doc) = Len(b.doc)
                                             /\ \A k \in 1..Len(a.doc) : NoRaw(Content(a.doc[k])) = NoRaw(Content(b.doc[k])))
Reordered(a, b) == a.ok /\ b.ok /\ Bag(Map(a.doc, Content)) = Bag(Map(b.doc, Content))

PairVerdict ==
  LET h == Trace[rec.head]
      mine == [ok |-> ph = "accepted", doc |-> doc]
      other == ReadText(h.txt)
      u == rec.u
      ok(x) == x \in {"ok", "err"}
  IN IF PROP = "C09"
     THEN IF ~SameMeaning(mine, other) THEN "PREMISE"
          ELSE IF u.st # h.u.st /\ ok(u.st) /\ ok(h.u.st) THEN "the unchecked parse tells the texts apart"
          ELSE IF rec.c.st # h.c.st /\ ok(rec.c.st) /\ ok(h.c.st) THEN "the checked parse tells the texts apart"
          ELSE IF u.st = "ok" /\ h.u.st = "ok" /\
                  ~(/\ Len(u.blocks) = Len(h.u.blocks)
                    /\ \A k \in 1..Len(u.blocks) : <<u.blocks[k].c.k, NoRaw(u.blocks[k].c)>> = <<h.u.blocks[k].c.k, NoRaw(h.u.blocks[k].c)>>)
               THEN "the contents differ"
          ELSE ""
     ELSE IF PROP = "C28"
     THEN IF ~(mine.ok /\ other.ok) THEN "PREMISE"
          ELSE IF rec.c.st # h.c.st /\ ok(rec.c.st) /\ ok(h.c.st) THEN "the way a relationship is written decides"
          ELSE ""
     ELSE IF ~Reordered(mine, other) THEN "PREMISE"
          ELSE IF rec.c.st # h.c.st /\ ok(rec.c.st) /\ ok(h.c.st) THEN "the order of declarations decides"
          ELSE ""

Compare ==
  /\ ph \in {"accepted", "rejected"} /\ bad = "" /\ PROP \in PairProps
  /\ ph' = "done"
  /\ \E v \in {IF rec.head = 0 THEN "" ELSE PairVerdict} :
       /\ bad' = (IF v = "PREMISE" THEN "" ELSE v)
       /\ IF v = "" THEN TRUE
          ELSE IF v = "PREMISE" THEN PrintT("SKIPPED " \o rec.id)
          ELSE Tell(v) /\ PrintT(<<"DETAIL", rec.id, Trace[rec.head].id, rec.u.st, rec.c, Trace[rec.head].c>>)
  /\ UNCHANGED <<src, pos, doc, at, faults>>

(* The run of a source is determined by these.                             *)
Step == <<src, pos, ph, at, bad>>

Finished == \/ bad # ""
            \/ ph = "done"
            \/ ph = "rejected" /\ PROP \notin PairProps \cup {"C23"}
            \/ ph = "accepted" /\ PROP \notin Judged \cup PairProps

Next == TraceRead \/ TraceAccept \/ Judge \/ Conclude \/ ConcludeRejected \/ Compare
        \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Conforms == bad = ""
(* What is shown of the states of a rejected trace.                         *)
Brief == [id |-> rec.id, pos |-> pos, ph |-> ph, read |-> Len(doc), at |-> at, bad |-> bad]
=============================================================================
