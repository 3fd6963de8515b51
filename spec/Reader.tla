------------------------------- MODULE Reader -------------------------------
(* Reading a document: from the start of the text, declaration by          *)
(* declaration, to its end.  Each step reads one whole declaration or ends *)
(* the run: accepted at the end of the text, rejected where no declaration *)
(* can be read.                                                            *)
EXTENDS Views

CONSTANTS Sources,        \* the documents to be read
          TextOf_(_)      \* the text of each

VARIABLES src,            \* the document being read
          pos,            \* position of the next token
          doc,            \* the declarations read so far
          ph              \* "read", then "accepted" or "rejected"
rvars == <<src, pos, doc, ph>>

ReaderInit == /\ src \in Sources
              /\ pos = Skip(TextOf_(src), 1)
              /\ doc = <<>>
              /\ ph = "read"

ReadWith(d) ==            \* d = Decl(text, pos), a match
  /\ d.p # 0
  /\ doc' = Append(doc, d.n)
  /\ pos' = Skip(TextOf_(src), d.p)
  /\ UNCHANGED <<src, ph>>

RejectWith(d) ==          \* d = Decl(text, pos), no match
  /\ d.p = 0
  /\ ph' = "rejected"
  /\ UNCHANGED <<src, pos, doc>>

AtEnd == pos = Len(TextOf_(src)) + 1
Here == Decl(TextOf_(src), pos)
ReadDecl == ph = "read" /\ ~AtEnd /\ \E d \in {Here} : ReadWith(d)
Reject == ph = "read" /\ ~AtEnd /\ \E d \in {Here} : RejectWith(d)
Accept == ph = "read" /\ AtEnd /\ ph' = "accepted" /\ UNCHANGED <<src, pos, doc>>
ReaderNext == ReadDecl \/ Accept \/ Reject

(* The same run as one operator, for relations between several texts.      *)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(t, i, acc) ==
  IF i = Len(t) + 1 THEN [ok |-> TRUE, doc |-> acc]
  ELSE LET d == Decl(t, i)
       IN IF d.p = 0 THEN [ok |-> FALSE, doc |-> acc] ELSE ReadFrom(t, Skip(t, d.p), Append(acc, d.n))
ReadText(t) == ReadFrom(t, Skip(t, 1), <<>>)

(* ----------------------------- invariants ------------------------------ *)
(* Spans of a declaration: inside the text, children inside parents, raw   *)
(* texts at their place, siblings in order of reading.                     *)
SpanOk(t, list) ==
  \A k \in 1..Len(list) :
    LET x == list[k] IN
    /\ 0 <= x.sp[1] /\ x.sp[1] <= x.sp[2] /\ x.sp[2] <= Len(t)
    /\ x.raw # <<>> => x.raw[1] = Sub(t, x.sp[1] + 1, x.sp[2])
    /\ x.up # 0 => LET y == list[k - x.up] IN y.sp[1] <= x.sp[1] /\ x.sp[2] <= y.sp[2]
SpansNested == doc # <<>> => SpanOk(TextOf_(src), Spans(doc[Len(doc)]))
(* Declarations are read in order, do not overlap, and nothing but blanks  *)
(* and comments is between them.                                           *)
StartOf(d) == d.sp[1]
Progress == \A k \in 1..(Len(doc) - 1) : doc[k].sp[2] <= doc[k + 1].sp[1]
NothingLost ==
  /\ pos = Skip(TextOf_(src), pos)
  /\ ph = "accepted" => AtEnd
=============================================================================
