-------------------------------- MODULE Edits -------------------------------
(* An author at work: documents that come about from a well-formed one by  *)
(* a few edits, one at a time.  Each edit changes one part of one          *)
(* declaration (a name, a type, a setting, an end, an entry of a list) or  *)
(* the declarations themselves.  The author first picks what to look at,   *)
(* then edits it.                                                          *)
EXTENDS Integers, Frag

CONSTANTS Starts,       \* which of the documents below to begin with
          Steps         \* numbers of edits

VARIABLES doc,          \* the declarations, as below
          focus,        \* 0: none; n: the n-th declaration; -1: the whole
          left,         \* edits left
          out           \* whether this document is handed out
evars == <<doc, focus, left, out>>

(* ------------------------------- documents ----------------------------- *)
(* set, notes, name, block: what the edits below leave alone (see Around)  *)
Project(props) == [k |-> "project", id |-> "p", props |-> props, notes |-> <<>>]
Enum(id, vals) == [k |-> "enum", id |-> id, vals |-> vals]
Col(n, t, s) == [n |-> n, t |-> t, s |-> s]
Idx(c, s) == [c |-> c, s |-> s]
Tab(id, al, cols, idx) == [k |-> "table", id |-> id, al |-> al, set |-> <<>>, notes |-> <<>>, early |-> FALSE, cols |-> cols, idx |-> idx]
Ref(l, lc, rel, r, rc, s) == [k |-> "ref", name |-> "", block |-> FALSE, l |-> l, lc |-> lc, rel |-> rel, r |-> r, rc |-> rc, s |-> s]
Group(id, items) == [k |-> "group", id |-> id, set |-> <<>>, items |-> items, notes |-> <<>>]
Free(text) == [k |-> "free", text |-> text]

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Map(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
SetText(s) == IF s = <<>> THEN "" ELSE " [" \o JoinBy(s, ", ") \o "]"
MembersText(c) == IF Len(c) = 1 THEN c[1] ELSE "(" \o JoinBy(c, ", ") \o ")"
TextOfDecl(d) ==
  CASE d.k = "project" -> Block("Project " \o d.id, d.props \o d.notes)
    [] d.k = "enum"    -> Block("Enum " \o d.id, d.vals)
    [] d.k = "table"   -> LET rest == d.notes \o (IF d.idx = <<>> THEN <<>>
                                                   ELSE << Block(" indexes", Map(d.idx, LAMBDA x : "  " \o MembersText(x.c) \o SetText(x.s))) >>)
                              cols == Map(d.cols, LAMBDA c : " " \o c.n \o " " \o c.t \o SetText(c.s))
                          IN Block("Table " \o d.id \o (IF d.al = "" THEN "" ELSE " as " \o d.al) \o SetText(d.set), IF d.early THEN rest \o cols ELSE cols \o rest)
    [] d.k = "ref"     -> "Ref" \o (IF d.name = "" THEN "" ELSE " " \o d.name) \o (IF d.block THEN " { " ELSE ": ")
                          \o d.l \o "." \o MembersText(d.lc) \o " " \o d.rel \o " " \o d.r \o "." \o MembersText(d.rc) \o SetText(d.s) \o (IF d.block THEN " }\n" ELSE "\n")
    [] d.k = "group"   -> Block("TableGroup " \o d.id \o SetText(d.set), d.items \o d.notes)
    [] d.k = "free"    -> d.text \o "\n"
Text(d) == J(Map(d, TextOfDecl))

Start == <<
  << Project(<<"a: 1", "database_type: 'PostgreSQL'">>),
     Enum("e", <<"v", "w">>), Enum("s.e", <<"v", "z">>),
     Tab("t", "x", << Col("a", "int", <<"pk">>), Col("b", "varchar(5)", <<"unique", "not null">>), Col("c", "e", <<"default: v">>) >>,
         << Idx(<<"a", "b">>, <<"unique">>), Idx(<<"c">>, <<>>) >>),
     Tab("s.u", "", << Col("a", "int", <<>>), Col("b", "varchar(5)", <<"null", "default: null">>), Col("c", "int", <<>>) >>,
         << Idx(<<"a", "c">>, <<"pk">>) >>),
     Ref("s.u", <<"a", "b">>, ">", "t", <<"a", "b">>, <<"delete: cascade">>),
     Group("g", <<"x", "s.u">>) >>,
  << Project(<<>>),
     Tab("t", "", << Col("a", "int", <<"pk", "increment">>), Col("b", "int[]", <<"default: 'x'">>), Col("c", "s.e", <<"unique">>) >>, <<>>),
     Tab("s.t", "y", << Col("a", "int", <<"unique", "ref: > t.a">>), Col("b", "bool", <<"default: true">>), Col("c", "s.e", <<"ref: - t.c", "default: z">>) >>,
         << Idx(<<"b", "`a`">>, <<"type: hash">>) >>),
     Enum("s.e", <<"v", "z">>),
     Ref("y", <<"a">>, "<", "t", <<"a">>, <<>>),
     Ref("s.t", <<"a">>, "<>", "t", <<"a">>, <<"name: 'r'">>),
     Group("g", <<"t", "s.t">>), Group("h", <<"y">>) >> >>

(* ------------------------------ vocabulary ----------------------------- *)
TabIds == {"t", "s.t", "s.u", "u", "public.t", "e"}
TabNames == {"t", "x", "y", "s.t", "s.u", "public.t", "u", "s.x", "e"}
EnumNames_ == {"e", "s.e", "public.e", "t", "f"}
Aliases == {"", "x", "y", "t", "u"}
Cols == {"a", "b", "c", "d", "A"}
Types == {"int", "integer", "varchar(5)", "varchar(6)", "char(5)", "int[]", "int[2]", "e", "s.e", "public.e", "bool", "smallint", "varchar(5,6)", "varchar('x')"}
Inlines == {<<">", "t", "a">>, <<"-", "s.u", "c">>, <<"<", "x", "a">>, <<"<>", "y", "a">>, <<"-", "t", "c">>}
InlineText(i) == "ref: " \o i[1] \o " " \o i[2] \o "." \o i[3]
InlineTexts == { InlineText(i) : i \in Inlines }
InlineOf == [x \in InlineTexts |-> CHOOSE i \in Inlines : InlineText(i) = x]
ColSets == {"pk", "primary key", "unique", "null", "not null", "default: 5", "default: 70000", "default: v", "default: z", "default: null", "default: 'abcdef'", "default: true", "note: 'n'"} \cup (InlineTexts \ {"ref: - t.c"})
IdxCols == {"a", "b", "c", "d", "`a`", "`e`"}
IdxSets == {"pk", "unique", "type: btree", "type: hash", "name: 'n'", "note: 'o'"}
IdxDefs == { Idx(<<"a">>, <<>>), Idx(<<"a">>, <<"unique">>), Idx(<<"b">>, <<"pk">>), Idx(<<"b", "a">>, <<"unique">>), Idx(<<"a", "b">>, <<>>), Idx(<<"`a`">>, <<"unique">>), Idx(<<"c">>, <<>>), Idx(<<"c">>, <<"type: hash">>) }
RefSets == {"delete: cascade", "update: set null", "x", "delete: restrict"}
Rels == {"<", ">", "-", "<>"}
Props == {"a: 2", "b: 1", "A: 1"}
Vals == {"v", "w", "z", "V"}

(* -------------------------------- edits -------------------------------- *)
Without_(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Swap_(s, k) == [s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]]
(* of a list whose entries are from V                                      *)
ListEdits(s, V) ==
  { Without_(s, k) : k \in 1..Len(s) } \cup { Append(s, v) : v \in V } \cup { <<v>> \o s : v \in V }
  \cup { [s EXCEPT ![k] = v] : k \in 1..Len(s), v \in V } \cup { Append(s, s[k]) : k \in 1..Len(s) }
  \cup { Swap_(s, k) : k \in 1..(Len(s) - 1) }
ColEdits(c) == { [c EXCEPT !.n = n] : n \in Cols } \cup { [c EXCEPT !.t = t] : t \in Types } \cup { [c EXCEPT !.s = s] : s \in ListEdits(c.s, ColSets) }
IdxEdits(x) == { [x EXCEPT !.c = c] : c \in ListEdits(x.c, IdxCols) } \cup { [x EXCEPT !.s = s] : s \in ListEdits(x.s, IdxSets) }
InPlace(s, F(_)) == UNION { { [s EXCEPT ![k] = y] : y \in F(s[k]) } : k \in 1..Len(s) }
DeclEdits(d) ==
  CASE d.k = "project" -> { [d EXCEPT !.props = s] : s \in ListEdits(d.props, Props) }
    [] d.k = "enum"    -> { [d EXCEPT !.id = n] : n \in EnumNames_ } \cup { [d EXCEPT !.vals = s] : s \in ListEdits(d.vals, Vals) }
    [] d.k = "table"   -> { [d EXCEPT !.id = n] : n \in TabIds } \cup { [d EXCEPT !.al = n] : n \in Aliases }
                          \cup { [d EXCEPT !.cols = s] : s \in InPlace(d.cols, ColEdits) \cup ListEdits(d.cols, { Col("d", "int", <<>>) }) }
                          \cup { [d EXCEPT !.idx = s] : s \in InPlace(d.idx, IdxEdits) \cup ListEdits(d.idx, IdxDefs) }
    [] d.k = "ref"     -> { [d EXCEPT !.l = n] : n \in TabNames } \cup { [d EXCEPT !.r = n] : n \in TabNames } \cup { [d EXCEPT !.rel = n] : n \in Rels }
                          \cup { [d EXCEPT !.lc = s] : s \in ListEdits(d.lc, Cols) } \cup { [d EXCEPT !.rc = s] : s \in ListEdits(d.rc, Cols) }
                          \cup { [d EXCEPT !.s = s] : s \in ListEdits(d.s, RefSets) }
    [] d.k = "group"   -> { [d EXCEPT !.id = n] : n \in {"g", "h", "t"} } \cup { [d EXCEPT !.items = s] : s \in ListEdits(d.items, TabNames) }
    [] d.k = "free"    -> {}
NewDecls == { Project(<<>>), Enum("e", <<"v">>), Enum("u.e", <<"v">>), Tab("u", "", << Col("a", "int", <<"unique">>) >>, <<>>), Tab("s.w", "t", << Col("a", "int", <<"ref: > t.a">>) >>, <<>>),
              Ref("t", <<"a">>, "-", "y", <<"a">>, <<>>), Ref("x", <<"a">>, "<", "s.u", <<"a">>, <<>>), Ref("x", <<"b", "a">>, "<", "s.u", <<"b", "a">>, <<>>), Group("g", <<"t">>), Group("k", <<>>) }
WholeEdits(s) == ListEdits(s, NewDecls)

(* ------------------------- other ways to write it ---------------------- *)
(* Each of these says the same as the document and is to be judged alike.  *)
Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Rotated(s) == IF s = <<>> THEN s ELSE Tail(s) \o <<Head(s)>>
Turn == [x \in Rels |-> CASE x = "<" -> ">" [] x = ">" -> "<" [] OTHER -> x]
Turned(s) == Map(s, LAMBDA d : IF d.k = "ref" THEN [d EXCEPT !.l = d.r, !.lc = d.rc, !.rel = Turn[d.rel], !.r = d.l, !.rc = d.lc] ELSE d)
Bare == {"t", "u", "e", "f"}
Full(n) == IF n \in Bare THEN "public." \o n ELSE n
AliasesIn(s) == { s[k].al : k \in { k \in 1..Len(s) : s[k].k = "table" } }
(* names of tables, through F; ids of declarations, through G; types, through H *)
Renamed(s, F(_), G(_), H(_)) ==
  Map(s, LAMBDA d : CASE d.k = "ref" -> [d EXCEPT !.l = F(d.l), !.r = F(d.r)]
                      [] d.k = "group" -> [d EXCEPT !.items = Map(d.items, F)]
                      [] d.k = "enum" -> [d EXCEPT !.id = G(d.id)]
                      [] d.k = "table" -> [d EXCEPT !.id = G(d.id), !.cols = Map(d.cols, LAMBDA c : [c EXCEPT !.t = H(c.t)])]
                      [] OTHER -> d)
Qualified(s) == Renamed(s, LAMBDA n : IF n \in AliasesIn(s) THEN n ELSE Full(n), Full, Full)
Id_(x) == x
NamedBy(s, n) == { s[k].id : k \in { k \in 1..Len(s) : s[k].k = "table" /\ s[k].al = n } }
Unaliased(s) == Renamed(s, LAMBDA n : LET T == NamedBy(s, n) IN IF Cardinality(T) = 1 THEN Full(CHOOSE t \in T : TRUE) ELSE n, Id_, Id_)
(* relationships of columns as declarations of their own                   *)
Lifted(s) ==
  LET refs(d) == IF d.k # "table" THEN <<>>
                 ELSE Cat(Map(d.cols, LAMBDA c : Map(SelectSeq(c.s, LAMBDA x : x \in InlineTexts),
                            LAMBDA x : LET i == InlineOf[x] IN Ref(Full(d.id), <<c.n>>, i[1], i[2], <<i[3]>>, <<>>))))
      rest(d) == IF d.k # "table" THEN d ELSE [d EXCEPT !.cols = Map(d.cols, LAMBDA c : [c EXCEPT !.s = SelectSeq(c.s, LAMBDA x : x \notin InlineTexts)])]
  IN Map(s, rest) \o Cat(Map(s, refs))
Orders(s) == <<Reversed(s), Rotated(s), Rotated(Rotated(s))>>
Others(s) == <<Turned(s), Qualified(s), Unaliased(s), Lifted(s), Lifted(Turned(s)), Turned(Unaliased(s))>>

Init == /\ doc \in { Start[k] : k \in Starts } /\ focus = 0 /\ left \in Steps /\ out = FALSE
Look == /\ focus = 0 /\ left > 0 /\ ~out
        /\ focus' \in (1..Len(doc)) \cup {-1}
        /\ UNCHANGED <<doc, left, out>>
HandOut == /\ focus = 0 /\ left = 0 /\ ~out /\ out' = TRUE
           /\ UNCHANGED <<doc, focus, left>>
EditDecl == /\ focus > 0
            /\ \E d \in DeclEdits(doc[focus]) : doc' = [doc EXCEPT ![focus] = d]
            /\ focus' = 0 /\ left' = left - 1 /\ UNCHANGED out
EditWhole == /\ focus = -1
             /\ doc' \in WholeEdits(doc)
             /\ focus' = 0 /\ left' = left - 1 /\ UNCHANGED out
Next == Look \/ EditDecl \/ EditWhole \/ HandOut
Spec == Init /\ [][Next]_evars
=============================================================================
