--------------------------------- MODULE Rel --------------------------------
(* The relation query: for a table, all relationships that involve it.     *)
EXTENDS Analysis

Involves(x, id) == x.l.id = id \/ x.r.id = id
Class(x, id) == IF x.l.id = id /\ x.r.id = id THEN "self" ELSE IF x.l.id = id THEN "to" ELSE "by"
Found(doc, id, class) == SelectSeq(AllRefs(doc), LAMBDA x : Involves(x, id) /\ Class(x, id) = class)

(* Classes are a partition of the relationships that involve the table.    *)
Partition(doc, id) ==
  Len(Found(doc, id, "self")) + Len(Found(doc, id, "to")) + Len(Found(doc, id, "by"))
    = Len(SelectSeq(AllRefs(doc), LAMBDA x : Involves(x, id)))
=============================================================================
