-------------------------------- MODULE Laws --------------------------------
(* Laws of the rules, checked on the specification itself: other orders of *)
(* the declarations of a document, and other ways to write it, are judged  *)
(* as the document is; and what an author prints is read as it was meant.  *)
EXTENDS Edits, IOUtils

NoText(x) == ""
R == INSTANCE Reader WITH Sources <- {}, TextOf_ <- NoText, src <- 0, pos <- 0, ph <- "", doc <- <<>>

AllStarts == 1..Len(Start)
Digit == CHOOSE n \in 0..9 : ToString(n) = IOEnv.EDITS_STEPS
HowMany == 1..Digit

Faults(d) == UNION { R!DeclFaults(d, i, <<>>) : i \in 1..Len(d) } \cup R!DocumentFaults(d, <<0, 0>>)
(* whether it is read, has to be rejected, may be rejected                 *)
Verdict(t) == LET r == R!ReadText(t)
                  F == Faults(r.doc)
              IN IF ~r.ok THEN <<"unread">> ELSE <<"read", \E f \in F : f.sure, F # {}>>
Alike(s, variants) == LET v == Verdict(Text(s)) IN \A k \in 1..Len(variants) : Verdict(Text(variants[k])) = v
OrderLaw == out => Alike(doc, Orders(doc))
WriteLaw == out => Alike(doc, Others(doc))

(* Reading gives back what was written.                                    *)
NamesRead(d) == LET r == R!ReadText(Text(d)) IN
  r.ok => /\ Len(r.doc) = Len(d)
          /\ \A k \in 1..Len(d) :
               /\ r.doc[k].k = d[k].k
               /\ d[k].k = "table" => /\ Map(r.doc[k].cols, LAMBDA c : c.name.name) = Map(d[k].cols, LAMBDA c : c.n)
                                       /\ Len(R!Defs(r.doc[k])) = Len(d[k].idx)
               /\ d[k].k = "enum" => Map(r.doc[k].vals, LAMBDA v : v.val.name) = d[k].vals
               /\ d[k].k = "group" => Len(r.doc[k].items) = Len(d[k].items)
               /\ d[k].k = "ref" => /\ r.doc[k].rel = d[k].rel
                                     /\ Map(r.doc[k].lhs.cols, LAMBDA c : c.name) = d[k].lc
                                     /\ Map(r.doc[k].rhs.cols, LAMBDA c : c.name) = d[k].rc
ReadLaw == out => NamesRead(doc)

(* A fault lies inside its declaration.                                    *)
PlaceLaw == out =>
  LET r == R!ReadText(Text(doc)) IN
  r.ok => \A i \in 1..Len(r.doc) : \A f \in R!DeclFaults(r.doc, i, <<>>) :
            r.doc[i].sp[1] <= f.r[1] /\ f.r[1] <= f.r[2] /\ f.r[2] <= r.doc[i].sp[2]
=============================================================================
