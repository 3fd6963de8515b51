------------------------------- MODULE Scopes -------------------------------
(* Bounded families of documents, one per property, enumerated completely. *)
(* Each is built from the fragments a rule speaks about, combined in every *)
(* way up to the stated sizes.                                             *)
EXTENDS Frag, Json, IOUtils, SequencesExt

Big == IOEnv.SCOPE_SIZE = "thorough"
Upto(quick, thorough) == IF Big THEN thorough ELSE quick

(* ------------------------------ C02 language --------------------------- *)
SeedTokens == {
  <<"Table ", "t", " ", "{", " ", "id", " ", "int", " ", "}">>,
  <<"Table ", "s", ".", "t", " ", "as ", "a", " ", "[", "k", ":", "'v'", ",", "m", "]", "{", "id", " ", "int", "}">>,
  <<"Table ", "t", "{", "id", " ", "int", " ", "[", "pk", ",", "default", ":", "1", ",", "ref", ":", ">", "a", ".", "b", "]", "}">>,
  <<"Table ", "t", "{", "id", " ", "varchar", "(", "5", ",", "6", ")", "[", "3", "]", "[", "]", " ", "[", "unique", "]", "}">>,
  <<"Table ", "t", "{", "id", " ", "\"", "a b", "(", "5", ")", "[", "]", "\"", "[", "2", "]", "}">>,
  <<"Table ", "t", "{", "id", " ", "s", ".", "e", "\n", "Note", ":", "'x'", "\n", "b", " ", "int", "}">>,
  <<"Table ", "t", "{", "note", "{", "'''x'''", "}", "Indexes", "{", "id", "[", "pk", "]", "(", "a", ",", "`b`", ")", "}", "}">>,
  <<"Table ", "t", "{", "indexes", " ", "{", "(", "a", ")", "[", "type", ":", "hash", ",", "name", ":", "'n'", "]", "`e`", "}", "}">>,
  <<"Enum ", "e", "{", "a", "\n", "\"b\"", "[", "note", ":", "'n'", "]", "}">>,
  <<"Enum ", "s", ".", "e", " ", "{", "a", " ", "b", "}">>,
  <<"Ref", ":", "a", ".", "b", ">", "c", ".", "d">>,
  <<"Ref", " ", "n", ":", "s", ".", "a", ".", "(", "b", ",", "c", ")", "<>", "c", ".", "(", "d", ",", "e", ")">>,
  <<"Ref", "{", "a", ".", "b", "-", "c", ".", "d", "[", "delete", ":", "cascade", ",", "update", ":", "no action", "]", "}">>,
  <<"TableGroup ", "g", "[", "k", ":", "#aabbcc", "]", "{", "a", "\n", "s", ".", "b", "\n", "Note", ":", "'x'", "}">>,
  <<"Project ", "p", "{", "k", ":", "'v'", "\n", "note", ":", "'n'", "\n", "w", ":", "x y", "}">>,
  <<"Note", ":", "'x'">>, <<"Note", "{", "'''x'''", "}">>,
  <<"// c", "\n", "Note", ":", "/* c */", "'x'", "// d">>,
  <<"Note", ":", "'a'", " ", "Enum ", "e", "{", "}", "Table ", "t", "{", "}", "Ref", ":", "a", ".", "b", "<", "c", ".", "d">> }
Tokens == { "", " ", "\n", "\t", "\r\n", "{", "}", "[", "]", "(", ")", ",", ":", ".", "-", "<", ">", "<>", "x", "\"q r\"", "'s'", "'", "\"", "`", "`e`",
            "'''m'''", "7", "1.5", "2.", "#fff", "#ffff", "true", "nullx", "not null", "ref", "Ref", "note", "Note", "TABLE ", "Table", "as ", "// c", "// c\n",
            "/* c */", "/*", "é", "😀", "_", "-1", "99999999999999999999", "indexes", "Enum ", "as", "9223372036854775807", "9223372036854775808", "4294967296" }
(* words whose values are looked at one by one, several in one list or text *)
Acts02 == { "cascade", "no action", "nope", "'set null'", "\"restrict\"", "Cascade", "`cascade`", "1" }
Acts02Few == { "cascade", "nope", "'set null'", "Cascade" }
Kinds02 == { "type: hash", "type: nope", "type: 'gin'", "type: Gin", "type: `gin`", "type", "pk", "name: 'n'", "unique", "x: nope" }
(* words that begin like a value, or end in a character that few words end in *)
Forms02 == { "true_", "true_x", "true1", "truex", "true-", "true.x", "true", "nullé", "null_", "null", "null1", "false_1", "falsé", "False", "TRUE", "1a", "1_", "1_0", "_1", "_", "a_b", "a-b", "1.", "1.5.", "1.a", "1e5", "#fffx", "#ffff",
             "#ff", "#fff", "#FfF", "#fffffg", "é", "a1", "1é", "0x1", "-1", "+1", ".5", "1 2", "true false", "a b", "a　", "notnull", "not_null", "not  null", "pk_", "pkx", "uniquex", "refx", "ref_", "refs", "notes", "as", "asx", "as_" }
Holes02 == { <<"Table t { a int [default: ", "] }">>, <<"Table t { a int [", "] }">>, <<"Table t [k: ", "] { }">>, <<"Table t { ", " int }">>, <<"Table t { a ", " }">>, <<"Table t { a x(", ") }">>, <<"Table t { a x(1, ", ")[2] }">>,
             <<"Project p { k: ", " }">>, <<"Project p { ", ": 1 }">>, <<"Enum e { ", " }">>, <<"Enum ", " { }">>, <<"Ref: ", ".b > c.d">>, <<"Ref: a.b > c.(d, ", ")">>, <<"Ref ", ": a.b > c.d">>, <<"Ref: a.b > c.d [update: ", "]">>,
             <<"TableGroup g { ", " }">>, <<"TableGroup g [", ": x] { }">>, <<"Table t { indexes { ", " } }">>, <<"Table t { indexes { a [type: ", "] } }">>, <<"Table t { indexes { a [", "] } }">>, <<"Table t as ", " { }">>, <<"Table t ", " a { }">> }
Nums02 == { "1", "9223372036854775807", "9223372036854775808", "99999999999999999999.5", "007", "4294967296" }
Words02 ==
  { "Ref: a.b > c.d [" \o k \o ": " \o v \o ", " \o l \o ": " \o w \o "]" : k \in {"update", "delete", "x"}, v \in Acts02, l \in {"update", "delete", "x"}, w \in Acts02 }
  \cup { "Ref: a.b > c.d [" \o k \o ": " \o v \o "]\nRef { a.b > c.d [x, " \o l \o ": " \o w \o ", y] }" : k \in {"update", "delete"}, v \in Acts02Few, l \in {"update", "delete"}, w \in Acts02Few }
  \cup { "Table t { indexes { a [" \o k \o ", " \o l \o "] (a, b) [" \o m \o "] } }" : k \in Kinds02, l \in Kinds02, m \in {"type: btree", "type: nope", "pk"} }
  \cup { "Table t { a int [default: " \o x \o ", k: " \o y \o "] b x(" \o z \o ")[1] }" : x \in Nums02, y \in Nums02, z \in Nums02 }
  \cup { "Table t { a x[" \o x \o "][" \o y \o "] b x(" \o z \o ", " \o x \o ") }" : x \in Nums02, y \in Nums02 \cup {""}, z \in Nums02 }
  \cup { "Project p { k: " \o x \o "\n l: " \o y \o " }\nTable t [k: " \o y \o "] { }\nTableGroup g [k: " \o x \o "] { }" : x \in Nums02, y \in Nums02 }
S_C02(u_) == { J(x) : x \in UNION { Near(s, Tokens) : s \in SeedTokens } } \cup Words02 \cup { h[1] \o w \o h[2] : h \in Holes02, w \in Forms02 }

(* ----------------------------- C03 declarations ------------------------ *)
Col(n) == n \o " int"
TableBits == { "a int", "b varchar [pk]", "Note: 'one'", "note { 'two' }", "Note: '''three'''", "indexes { a }", "Indexes { (a, b) [unique]\n `x` }",
               "\"c d\" text [note: 'n']", "// comment", "note int", "indexes { }", "indexes { b\n c [unique] }", "indexes { (`x`, `x`, a)\n (a, a)\n (a)\n `x`\n `x` }" }
EnumBits == { "a", "b [note: 'x']", "\"c d\"", "Note", "/* c */" }
GroupBits == { "a", "s.b", "\"q r\"", "Note: 'one'", "note { 'two' }", "Notes", "Note.x" }
ProjectBits == { "a: 'x'", "b c: d e", "Note: 'one'", "note { '''two''' }", "database_type: 'PostgreSQL'", "note_x: 1" }
Decls == { "Project p { a: 'x' }", "Table t { a int }", "Table s.\"t u\" as z { b int\n Note: 'n' }", "Enum e { a b }", "Enum s.e { \"x y\" }", "Ref r: a.b > c.d",
           "Ref { s.a.(b, c) < d.(e, f) }", "TableGroup g { a s.b }", "Note: 'free'", "Note { '''free''' }", "TABLE T { }", "tablegroup h { Note: 'x' }", "Table q [k: 'v'] { a int }" }
Names03 == { "a", "A", "ab", "\"a\"", "\"\"", "\" \"", "\"a b\"", "\"a.b\"", "\"public\"", "public", "as", "Note", "note_", "table", "\"{\"", "\"'\"", "\"é\"", "\"A\"", "a1_", "\"1\"", "\"\\\"\"", "\"a\n\"", "int", "\"//\"", "indexes", "ref", "pk", "null" }
S_C03(u_) ==
  { Block("Table t", s) : s \in SeqsOf(TableBits, 0..3) }
  \cup { Block("Enum e", s) : s \in SeqsOf(EnumBits, 0..4) }
  \cup { Block("TableGroup g", s) : s \in SeqsOf(GroupBits, 0..3) }
  \cup { Block("Project p", s) : s \in SeqsOf(ProjectBits, 0..3) }
  \cup { JoinBy(s, "\n") : s \in SeqsOf(Decls, 0..3) }
  (* names of every form at every place, and equal at two *)
  \cup { "Table " \o x \o " as " \o y \o " { a int }\nTable " \o x \o "." \o y \o " { }" : x \in Names03, y \in Names03 }
  \cup { "Table " \o x \o "." \o x \o " as " \o y \o " [" \o z \o "] { " \o y \o " int " \o x \o " int }" : x \in Names03, y \in Names03, z \in {"k"} }
  \cup { "Enum " \o x \o "." \o y \o " { " \o y \o " " \o x \o " }\nEnum " \o y \o " { }" : x \in Names03, y \in Names03 }
  \cup { "TableGroup " \o x \o " { " \o y \o " " \o x \o "." \o y \o " " \o y \o "." \o x \o " }" : x \in Names03, y \in Names03 }
  \cup { "Project " \o x \o " { " \o y \o ": 'v'\n Note: 'n'\n }\nNote: 'm'\nRef " \o y \o ": a.b > c.d" : x \in Names03, y \in {"k", "k k", "note", "notes", "Table", "k_1", "K"} }
  \cup { "Table t { " \o x \o " int\n indexes { " \o x \o "\n (" \o y \o ", " \o x \o ") [name: 'i'] } }" : x \in Names03, y \in Names03 }

(* ------------------------------- C04 settings -------------------------- *)
ColKeys == { "pk", "primary key", "unique", "null", "not null", "increment", "default: 5", "default: 'x'", "default: null", "default: `now()`", "default: true",
             "note: 'n'", "note: \"m\"", "note", "default", "ref: > a.b", "ref: < s.a.(b, c)", "PK", "Unique", "x: 1.50", "x y: z w", "pk: 1", "Primary Key", "increment: false", "not  null",
             "notnull", "default: 007", "note: `e`", "default: word", "unique: #fff" }
IdxKeys == { "pk", "unique", "type: btree", "type: gin", "type: gist", "type: hash", "type: 'hash'", "type: \"gin\"", "name: 'n'", "name: \"m\"", "note: 'o'", "primary key", "type", "name",
             "note", "Unique", "x: y", "name: word", "type: `hash`", "null" }
RefKeys == { "update: cascade", "delete: cascade", "update: no action", "delete: restrict", "delete: set null", "update: set default", "update: 'cascade'", "delete: \"x\"", "update", "delete",
             "x: y", "Update: x", "on delete: cascade", "color: #aabbcc", "delete: no action", "update: restrict", "update: set null", "delete: set default" }
ValKeys == { "note: 'n'", "note: \"m\"", "note", "Note: 'x'", "x", "note: 5", "y: z" }
AnyKeys == { "headercolor: #aabbcc", "headerColor: #ABC", "note: 'n'", "x", "x: y", "k k: 1", "k: 2.50", "z: true", "z: null", "z: \"q\"" }
PropKeys == { "database_type: 'PostgreSQL'", "database_type: 'postgresql'", "database_type: 'MySQL'", "database_type: PostgreSQL", "Database_type: 'PostgreSQL'", "x: 1", "note x: 'y'",
              "database_type: '''PostgreSQL'''", "database_type: `PostgreSQL`", "y: #aabbcc", "database_type: ''" }
Vals04 == { "null", "true", "false", "0", "1", "''", "'x'", "x", "`e`", "#fff", "1.5", "none" }
Valued04 ==
  { "Table t { a int [" \o k \o ": " \o v \o "] }" : k \in {"pk", "primary key", "unique", "null", "not null", "increment", "note", "default"}, v \in Vals04 }
  \cup { "Table t { a int [" \o k \o ": " \o v \o ", " \o l \o "] }" : k \in {"unique", "pk", "default", "null"}, v \in Vals04, l \in {"unique", "pk", "default: 7", "not null", "note: 'n'", "null: false"} }
  \cup { "Table t { indexes { a [" \o k \o ": " \o v \o "] } }" : k \in {"pk", "unique", "name", "note", "type"}, v \in Vals04 \cup {"hash", "'gin'"} }
  \cup { "Ref: a.b > c.d [" \o k \o ": " \o v \o "]" : k \in {"update", "delete"}, v \in Vals04 \cup {"cascade", "'set null'"} }
  \cup { "Enum e { a [note: " \o v \o "] }" : v \in Vals04 }
  \cup { "Project p { " \o k \o ": " \o v \o " }" : k \in {"database_type", "note x"}, v \in Vals04 }
  \cup { "Table t [" \o k \o ": " \o v \o "] { }\nTableGroup g [" \o k \o ": " \o v \o "] { }" : k \in {"note", "headercolor", "null"}, v \in Vals04 }
S_C04(u_) ==
  Valued04 \cup
  { "Table t {\n a int " \o l \o "\n b text\n}" : l \in Lists(ColKeys, Upto(0..2, 0..3)) }
  \cup { "Table t {\n indexes {\n a " \o l \o "\n (a, b)\n }\n}" : l \in Lists(IdxKeys, Upto(0..2, 0..3)) }
  \cup { "Ref: a.b > c.d " \o l \o "\n" : l \in Lists(RefKeys, Upto(0..2, 0..3)) }
  \cup { "Ref { a.b - c.d " \o l \o " }\n" : l \in Lists(RefKeys, 1..2) }
  \cup { "Enum e { a " \o l \o " b }" : l \in Lists(ValKeys, 0..3) }
  \cup { "Table t " \o l \o " { a int }" : l \in Lists(AnyKeys, 0..2) }
  \cup { "TableGroup g " \o l \o " { a }" : l \in Lists(AnyKeys, 0..2) }
  \cup { Block("Project p", s) : s \in SeqsOf(PropKeys, 0..2) }
  \cup { "Table t {\n a int " \o k \o "\n b int " \o m \o "\n indexes { a " \o i \o "\n b }\n}" :
           k \in Lists({"pk", "null", "x"}, 0..1), m \in Lists({"unique", "not null", "default: 1"}, 0..1), i \in Lists({"pk", "type: hash"}, 0..1) }

(* ------------------------------- C05 literals -------------------------- *)
LitChars == Chars("a '\"`\\/*\n#0") \cup {"é", "😀", "//", "/*", "*/", "''", "\t"}
Texts == Strings(LitChars, Upto(0..2, 0..3))
Quote(q, x) == q \o x \o q
Words_ == { "true", "false", "null", "truex", "true_", "true1", "nullable", "falsely", "null_x", "true x", "x true", "not null", "t", "tru", "nul", "True", "NULL", "trueé", "null1", "false_", "a b c", "a  b", "a_b",
            "a1 b2", "nullnull", "true false", "falsetrue", "false1x" }
Nums == { "0", "1", "007", "42", "9223372036854775807", "9223372036854775808", "09223372036854775807", "00000000000000000000007", "000000000000000000000000", "0000000000000000000000.50", "1.0000000000000000000000", "1.", "1.0", "1.50", "00.5", "0.0", "1.5.2", "1_000", "1e5", ".5", "12.345", "3.14159265",
          "1000000000", "2147483648", "100.001", "99999999999.5", "0.1", "0.125", "10", "100" }
Hexes == { "#fff", "#ffffff", "#ABCDEF", "#abc", "#12", "#1234", "#12345", "#1234567", "#ggg", "#aB9", "#fff000" }
Exprs == { "`now()`", "`a b`", "` a`", "`a `", "``", "`'x'`", "`\"x\"`", "`/* c */`", "`// c`", "`é😀`", "`\n a`" }
DQ == { "\"\"", "\"a b\"", "\" a\"", "\"a \"", "\"é\"", "\"//x\"", "\"/*x*/y\"", "\"a'b\"", "\"`\"", "\"\n\"", "\"true\"", "\"null\"", "\"#fff\"", "\"[x]\"", "\"a.b\"" }
Literals == Words_ \cup Nums \cup Hexes \cup Exprs \cup DQ
Idents_ == DQ \cup { "a", "A", "a1", "a_", "z9_z", "Table", "as", "note_", "ref", "true", "é", "_a", "1a", "a-b", "aé" }
S_C05(u_) ==
  { "Note: " \o Quote("'", x) : x \in Texts } \cup { "Note: " \o Quote("'''", x) : x \in Texts }
  \cup { "Enum e { x " \o Quote("\"", x) \o " y }" : x \in Texts }
  \cup { "Table t { indexes { a " \o Quote("`", x) \o " b } }" : x \in Texts }
  \cup { "Table t { a int [default: " \o x \o "] }" : x \in Literals }
  \cup { "Table t { a int [default: " \o x \o ", pk] }" : x \in { Quote(q, y) : q \in {"'", "`", "\"", "'''"}, y \in Strings(LitChars, 0..1) } }
  \cup { "Table t { a x(" \o x \o ") }" : x \in Literals }
  \cup { "Table t { a x(" \o x \o "," \o y \o ") }" : x \in Nums, y \in {"1", "'z'", "true", "null"} }
  \cup { "Project p { k: " \o x \o "\n l: 1 }" : x \in Literals }
  \cup { "Ref: a.b > c.d [k: " \o x \o "]" : x \in Literals }
  \cup { "Table " \o x \o " { a int }" : x \in Idents_ } \cup { "Table " \o x \o "." \o y \o " as " \o x \o " { " \o y \o " int }" : x \in Idents_, y \in Idents_ }
  \cup { "Enum " \o x \o " { " \o y \o " }" : x \in Idents_, y \in Idents_ }
  \cup { "Ref " \o x \o ": " \o x \o "." \o y \o " > " \o y \o ".(" \o x \o ", " \o y \o ")" : x \in Idents_, y \in Idents_ }
  \cup { "TableGroup " \o x \o " { " \o y \o " z." \o x \o " }" : x \in Idents_, y \in Idents_ }
  \cup { "Table t { indexes { (" \o x \o ", " \o y \o ") } }" : x \in Idents_, y \in Idents_ \cup Exprs }
  \cup { "Project " \o x \o " { }" : x \in Idents_ }

(* --------------------------------- C06 types --------------------------- *)
Names_ == { "int", "varchar", "e_1", "INT", "x" }
Spaced == Names_ \cup { "double precision", "a b c", "timestamp with time zone", "a  b", " a", "a " }
ArgLists == { "", "()", "(5)", "(5,6)", "(5, 6)", "('x')", "(1.5)", "(true)", "(null)", "(`e`)", "(#fff)", "(5,'a',null)", "(99)", "(x)", "(\"x\")", "(-1)", "(5,)", "('x y')", "(5,'a  b ',6)", "('a,b')", "('(')", "(')')", "(`e f`)", "(5 ,6)", "( 5)", "(5 )", "('')", "('''m n''')", "('x\ny')" }
Arrs == { "", "[]", "[3]", "[][]", "[3][4]", "[][2][]", "[007]", "[4294967295]", "[4294967296]", "[x]", "[ ]", "[0]" }
QSchemas == { "", "s.", "\"s t\".", "\"s\".", "s .", "s. ", "a.b." }
S_C06(u_) ==
  { "Table t { c " \o q \o n \o a \o r \o " }" : q \in QSchemas, n \in Names_, a \in ArgLists, r \in Arrs }
  \cup { "Table t { c " \o q \o "\"" \o n \o a \o r \o "\"" \o z \o " }" : q \in {"", "s.", "\"s t\"."}, n \in Spaced, a \in {"", "(5)", "(5,6)", "()", "('x')", "('x y')"}, r \in {"", "[]", "[3]", "[][2]"},
         z \in {"", "[]", "[3]", "[4][]", "(5)", " [pk]"} }
  \cup { "Table t { c " \o n \o a \o s \o " d " \o n \o r \o "\n}" : n \in {"int", "\"a b\""}, a \in {"", "(5)"}, r \in {"", "[]", "[2]"}, s \in {" ", " [pk] ", "\n", " [] ", "[3] "} }

(* ----------------------------- C07 relationships ----------------------- *)
Rels == { "<", ">", "-", "<>" }
Ends == { "a.(b, b)", "a.b", "s.a.b", "\"x y\".\"z\"", "a.(b)", "a.(b, c)", "s.a.(b,c,d)", "s . a . b", "public.a.b" }
BadEnds == { "a", "a.", ".b", "a.b.c.d", "a.()", "a.(b", "a.(b,)", "(a).b", "a.b.", "s.a.(b, c).d" }
RefHeads == { "Ref: ", "Ref n: ", "ref \"n m\": ", "REF:" }
RefNames == { "", "n ", "\"n m\" " }
RefSets == { "", " [update: cascade]", " [delete: set null, update: no action]", " []", " [x: 'y']" }
Names07 == { "a", "A", "\"a\"", "\"\"", "\" \"", "\"a b\"", "\"a.b\"", "public", "\"public\"", "\"(\"", "\"a, b\"", "\">\"", "ref", "note", "as", "\"é\"", "a1_", "\"1\"", "\"'\"", "pk", "\"a\n\"" }
S_C07(u_) ==
  { "Ref " \o x \o h \o y \o ".b > s." \o x \o "." \o y \o z : x \in Names07, y \in Names07, <<h, z>> \in { <<": ", "">>, <<" { ", " }">> } }
  \cup { "Ref: " \o x \o "." \o y \o "." \o x \o " - " \o y \o ".(" \o x \o ", " \o y \o ")\nRef { " \o x \o "." \o y \o ".(" \o y \o ", " \o x \o ") < " \o x \o "." \o x \o " }" : x \in Names07, y \in Names07 }
  \cup { "Table t { c int [ref: <> " \o x \o "." \o y \o ", ref: > " \o y \o "." \o x \o ".(" \o x \o "," \o y \o ")] }" : x \in Names07, y \in Names07 }
  \cup { "Ref " \o x \o ": a.b > c.d [" \o z \o "]\nRef " \o x \o " { a.b > c.d [" \o z \o "] }" : x \in Names07, z \in {"delete: cascade", "name: 'n'", "x: y", "update: 'no action'", "update: restrict, delete: set null"} }
  \cup
  { h \o l \o g \o r \o g \o e \o z \o "\n" : h \in RefHeads, l \in Ends, r \in Rels, e \in Ends, z \in {"", " [update: cascade]"}, g \in {" "} }
  \cup { "Ref " \o n \o "{ " \o l \o " " \o r \o " " \o e \o z \o " }" : n \in RefNames, l \in {"a.b", "s.a.(b, c)"}, r \in Rels, e \in {"c.d", "s.c.(d, e)"}, z \in RefSets }
  \cup { "Ref: " \o l \o g \o r \o g \o e : l \in {"a.b", "s.a.(b, c)"}, r \in Rels \cup {"><", "--", "<<", "=", "<->", "> <"}, e \in {"c.d", "(x).y"}, g \in {"", " ", "\n", "/*c*/"} }
  \cup { "Ref: " \o l \o " > " \o e : l \in Ends \cup BadEnds, e \in Ends \cup BadEnds }
  \cup { "Table t { c int [" \o JoinBy(s, ", ") \o "] d int " \o z \o " }" :
           s \in SeqsOf({"pk", "ref: > a.b", "ref: < s.a.b", "ref:-a.(b, c)", "ref: <> \"x y\".z", "Ref: > a.b", "ref: a.b", "ref : > a . b", "unique"}, 1..2),
           z \in {"", "[ref: > q.r]"} }

(* --------------------------------- C12 project ------------------------- *)
Prjs == { "", "Project p { }\n", "Project q { a: 1 }\n", "Project p { a: 1\n b: 2\n a: 3 }\n", "Project p { a: 1\n A: 2 }\n", "Project p { a: 1\n a: 1 }\n", "Project p { Note: 'x'\n note: 'y' }\n",
          "Project p { a: 1\n b: 2\n c: 3\n d: 4\n c: 5 }\n", "Project \"\" { a b: 1\n ab: 2 }\n", "Project p { database_type: 'x'\n database_type: 'y' }\n" }
Fill == { "", "Table t { a int }\n", "Enum e { a }\n", "TableGroup g { }\n", "Note: 'Project'\n", "// Project p { }\n" }
S_C12(u_) == { a \o x \o b \o y \o c : a \in Prjs, b \in Prjs, c \in Prjs \cap {"", "Project p { }\n", "Project q { a: 1 }\n"}, x \in Fill, y \in {"", "Table u { a int }\n"} }

(* ---------------------------------- C13 names -------------------------- *)
QNames == { "a", "public.a", "\"public\".a", "\"a\"", "s.a", "\"s\".\"a\"", "A", "b", "Public.a", "S.a", "public.b", "\" a\"", "\"a \"", "s.public" }
Aliases == { "", " as x", " as y", " as \"x\"", " as X", " as a", " as b" }
(* names that are the same only if a schema and a name are run together    *)
Run13 == { "a", "b", "\"a.b\"", "\"b.a\"", "a.b", "a.\"b.a\"", "\"a.b\".a", "\"a.b\".\"a.b\"", "\"public.a\"", "public.\"a.b\"", "\"public.a\".b", "\"\".a", "\".a\"", "\"a \".b", "a.\" b\"", "ab.c", "a.bc", "a_b.c", "a.b_c", "\"a:\".b", "a.\":b\"" }
Items == { "a", "public.a", "\"a\"", "s.a", "x", "b", "\"x\"", "y", "s.b" }
S_C13(u_) ==
  { Prj \o "Table " \o x \o p \o " { i int }\nTable " \o y \o q \o " { i int }\n" : x \in QNames, y \in QNames, p \in Aliases, q \in Aliases }
  \cup { Prj \o "Enum " \o x \o " { i }\nEnum " \o y \o " { i }\nTable " \o x \o " { i int }\n" : x \in QNames, y \in QNames }
  \cup { Prj \o "Table " \o x \o " { i int }\nTable " \o y \o z \o " { i int }\n" : x \in Run13, y \in Run13, z \in {"", " as \"a.b\""} }
  \cup { Prj \o "Enum " \o x \o " { i }\nEnum " \o y \o " { i }\nTable " \o y \o " { i int }\n" : x \in Run13, y \in Run13 }
  \cup { Prj \o "Table " \o x \o " { i int }\nTable " \o y \o " { i int }\nTableGroup g { " \o x \o "\n" \o y \o " }\n" : x \in Run13, y \in Run13 }
  \cup { Prj \o Block("Table t", Append(s, "z int")) : s \in SeqsOf({"a int", "\"a\" text", "A int", "b int", "\"b\" int", "\"a b\" int"}, 2..Upto(3, 4)) }
  \cup { Prj \o Block("Enum e", s) : s \in SeqsOf({"a", "\"a\"", "A", "b", "c [note: 'a']", "b [note: 'b']"}, 1..Upto(3, 4)) }
  \cup { Prj \o "Table a { i int }\nTable s.a as x { i int }\nTable b as y { i int }\nTable s.b { i int }\n" \o Block("TableGroup g", s) : s \in SeqsOf(Items, 2..Upto(2, 3)) }
  \cup { Prj \o "Table a { i int }\nTable b as \"a\" { i int }\nTable s.b as z { i int }\n" \o Block("TableGroup g", s) : s \in SeqsOf({"a", "b", "public.a", "public.b", "z", "s.b"}, 2..2) }
  \cup { Prj \o "Table a { i int }\nTableGroup " \o x \o " { a }\nTableGroup " \o y \o " { a }\n" \o z : x \in {"g", "\"g\"", "G", "h", "a"}, y \in {"g", "\"g\"", "G", "h", "a"}, z \in {"", "TableGroup g { }", "Table g { i int }"} }
  \cup { Prj \o "Table a { " \o x \o " int }\nTable b { " \o y \o " int }\nEnum a { " \o x \o " }\nEnum b { " \o y \o " }\n" : x \in {"i", "a", "b"}, y \in {"i", "a", "b"} }
  \cup { Prj \o JoinBy(s, "\n") : s \in SeqsOf({"Table a { i int }", "Table b { i int }", "Table s.a { i int }", "Enum a { v }", "Enum s.a { v }", "TableGroup a { }"}, 3..3) }

(* ------------------------------- C14 settings keys --------------------- *)
Keys14 == { "k: 1", "k: 2", "k", "m: 'x'", "K: 1", "k k: 1", "n" }
KeyLists == Lists(Keys14, 0..3)
Short14 == Lists({ "k: 1", "k", "m" }, 0..2)
S_C14(u_) ==
  { Prj \o "Table t " \o l \o " { a int }" : l \in KeyLists }
  \cup { Prj \o "Table t { a int " \o l \o "\n b int }" : l \in KeyLists }
  \cup { Prj \o "Table t { a int [pk]\n b int [m]\n c int " \o l \o " }" : l \in KeyLists }
  \cup { Prj \o "Enum e { a " \o l \o " b }" : l \in KeyLists }
  \cup { Prj \o "Enum e { a b c [k] d " \o l \o " }" : l \in Short14 }
  \cup { Prj \o "Table t { a int\n indexes { a " \o l \o " } }" : l \in KeyLists }
  \cup { Prj \o "Table t { a int b int\n indexes { a [k]\n (a, b) " \o l \o "\n `x` " \o m \o " } }" : l \in Short14, m \in Short14 }
  \cup { Prj \o "Table t { a int [pk] }\nTable u { a int }\nRef: u.a > t.a " \o l \o "\n" : l \in KeyLists }
  \cup { Prj \o "Table t { a int [pk] }\nTable u { a int b int }\nRef { u.a > t.a " \o l \o " }\nRef x: u.b > t.a " \o m \o "\n" : l \in Short14, m \in Short14 }
  \cup { Prj \o "Table t { a int }\nTableGroup g " \o l \o " { t }" : l \in KeyLists }
  \cup { Prj \o "Table t " \o a \o " { a int " \o b \o " }\nTable u " \o c \o " { a int }\nTableGroup g " \o d \o " { t }\nTableGroup h " \o b \o " { u }" :
           a \in Lists({"k", "m"}, 0..2), b \in Lists({"k", "m"}, 0..2), c \in Lists({"k", "m"}, 0..2), d \in Lists({"k", "m"}, 1..2) }
  \cup { Prj \o "Table t { a int [" \o JoinBy(s, ", ") \o "]\n b int [unique] }" : s \in SeqsOf({"ref: > t.b", "ref: - t.b", "pk", "primary key", "unique", "note: 'x'", "default: 1", "null"}, 1..Upto(2, 3)) }

(* --------------------------------- C15 primary key --------------------- *)
PkCols == { "int", "int [pk]", "int [primary key]", "int [pk, null]", "int [null, pk]", "int [pk, not null]", "int[] [pk]", "int[3] [primary key]", "int [null]", "int [null, not null]", "int [not null, null]",
            "int [pk, primary key]", "int [not null, pk, null]", "\"int[]\" [pk]", "int [unique]", "int[] [null]", "int [pk, null, not null]" }
PkIdx == { "", "indexes { a [pk] }", "indexes { (a, b) [pk] }", "indexes { a [pk]\n b [pk] }", "indexes { (a, b) [unique]\n (b, a) [pk] }", "indexes { a [unique] }", "indexes { `x` [pk] }",
           "indexes { c\n (a, c) [pk]\n b [pk] }", "indexes { a [pk: 1, note: 'x'] }" }
S_C15(u_) ==
  { Prj \o "Table t {\n a " \o x \o "\n b " \o y \o "\n c int\n " \o i \o "\n}\n" : x \in PkCols, y \in PkCols, i \in PkIdx }
  \cup { Prj \o "Table t { a " \o x \o "\n z int }\nTable u { a " \o y \o "\n b " \o z \o " }\n" : x \in PkCols, y \in PkCols, z \in {"int", "int [pk]", "int[] [pk]"} }
  \cup { Prj \o "Table t { a int [pk] b int c " \o x \o " }" : x \in PkCols }

(* ----------------------------------- C16 indexes ----------------------- *)
DefSets == { "", " []", " [unique]", " [pk]", " [type: btree]", " [type: hash]", " [name: 'n']", " [unique, name: 'n']", " [unique, type: btree]", " [pk, unique]", " [pk, type: hash]", " [unique, pk, type: gin]" }
DefCols == { "a", "b", "(a)", "(a, b)", "(b, a)", "(a, b, c)", "(b, c)", "`x`", "(`x`)", "(a, `x`)", "`y`", "()", "z", "(a, z)", "\"a\"", "(a, a)", "A" }
DefsAll == { c \o s : c \in DefCols, s \in DefSets }
DefsFew == { c \o s : c \in {"a", "(a)", "(a, b)", "(b, a)", "`x`", "(a, b, c)", "(a, `x`)"}, s \in {"", " [unique]", " [type: btree]", " [type: hash]", " [pk]"} }
ColsFor16 == { "a int\n b int\n c int", "a int [unique]\n b int\n c int", "a int [pk]\n b int [unique]\n c int" }
S_C16(u_) ==
  { Prj \o "Table t {\n " \o c \o "\n indexes {\n " \o d \o "\n }\n}\n" : c \in ColsFor16, d \in DefsAll }
  \cup { Prj \o "Table t {\n a int\n b int\n c int\n indexes {\n " \o d \o "\n " \o e \o "\n }\n}\n" : d \in DefsAll, e \in DefsFew }
  \cup { Prj \o "Table t {\n a int\n b int\n c int\n indexes {\n c\n " \o d \o "\n `q` [unique]\n " \o e \o "\n }\n}\n" : d \in DefsFew, e \in DefsFew }
  \cup { Prj \o "Table t { a int\n b int\n c int\n indexes { " \o d \o " } }\nTable u { a int\n b int\n c int\n indexes { " \o e \o " } }\n" : d \in DefsFew, e \in DefsFew }

(* ------------------------------- C17 type arguments -------------------- *)
AllTypes == { "bit", "varbit", "char", "character", "varchar", "box", "cidr", "circle", "inet", "line", "lseg", "macaddr", "macaddr8", "money", "path", "pg_lsn", "pg_snapshot", "point", "polygon", "tsquery", "tsvector",
              "smallserial", "serial2", "serial", "serial4", "bigserial", "serial8", "smallint", "int2", "integer", "int", "int4", "bigint", "int8", "real", "float4", "float8", "bool", "boolean", "bytea", "date", "text",
              "time", "timetz", "timestamp", "timestamptz", "uuid", "json", "jsonb", "decimal", "numeric", "xml" }
SpacedTypes == { "bit varying", "character varying", "double precision", "time without time zone", "time with time zone", "timestamp without time zone", "timestamp with time zone" }
OtherTypes == { "unknown", "Int", "VARCHAR", "interval", "string", "s.int", "public.varchar", "\"s\".decimal" }
Args17 == { "", "()", "(1)", "(1,2)", "(1,2,3)", "('x')", "(1.5)", "(1,'x')", "('x',1)", "(true)", "(null)", "(`e`)", "(#fff)", "(0)", "(255)", "(1,2.0)", "(9223372036854775807)" }
S_C17(u_) ==
  { Prj \o "Table t { a int\n c " \o n \o a \o z \o " }" : n \in AllTypes \cup OtherTypes, a \in Args17, z \in {"", "[]"} }
  \cup { Prj \o "Table t { a int\n c \"" \o n \o a \o "\"" \o z \o "\n d int }" : n \in AllTypes \cup SpacedTypes \cup {"unknown type"}, a \in Args17, z \in {"", "[] [null]"} }
  \cup { Prj \o "Table t { a " \o x \o "\n b " \o y \o " }\nTable u { a " \o y \o " }" : x \in {"int", "varchar(5)", "int(5)", "decimal(1)"}, y \in {"text", "char(1)", "decimal(5,2)", "text(5)", "varchar('x')"} }

(* -------------------------------- C18 defaults ------------------------- *)
Ints == { "0", "32767", "32768", "65535", "2147483647", "2147483648", "4294967296", "9223372036854775807", "00032767", "032768", "127", "128", "255", "1" }
IntTypes == { "smallint", "int2", "integer", "int", "int4", "bigint", "int8", "serial", "smallserial", "text", "decimal", "bool", "real", "numeric(5,2)", "\"int\"", "int[]", "smallint[2]", "date" }
Strs == { "", "a", "ab", "abc", "abcd", "é", "éé", "ééé", "😀", "😀😀", "😀é", "日本語", "a b", "a\nb",
          " ", "a ", " a", "a ", " ", "　", "a ", "é", "​", "\t", "\ta", "ﬃ" }
StrTypes == { "char", "char(2)", "character(2)", "bit(2)", "bit", "varchar", "varchar(2)", "\"character varying(2)\"", "varbit(2)", "\"bit varying(2)\"", "text", "int", "char(0)", "varchar(0)", "varchar(3)", "\"varchar\"(2)",
              "char(9223372036854775807)", "varchar(2)[]", "time(2)", "decimal(2,2)", "char(1)", "varchar(2147483648)", "uuid", "char()" }
NullSets == { "", ", null", ", not null" }
DefVals == { "true", "false", "null", "`now()`", "1.5", "word", "#fff", "'x'", "5", "\"q\"", "truex", "''" }
EnumTypes == { "e", "public.e", "s.e", "\"s\".\"e\"", "\"e\"", "nosuch", "s.nosuch", "nosuch.e", "E", "u.e", "f", "empty.e", "\"s.d\".e", "\"s.d\".d", "\"s\".d", "\"d\".e", "\".\".e" }
EnumDefs == { "v", "'v'", "\"v\"", "w", "'w w'", "V", "'V'", "1", "5", "'5'", "1.5", "true", "null", "`v`", "#fff", "'s'", "sv", "'true'", "false", "''" }
EnumCtx == Prj \o "Enum e { v\n \"w w\"\n \"5\"\n \"true\"\n w }\nEnum s.e { sv\n \"1.5\" }\nEnum \"s.d\".e { v\n sd }\nTable u.x { i int }\n"
Things18 == { "", "Table n { v int }", "Table s.n { v int }", "Table w as n { v int }", "Enum n { v }", "Enum s.n { v }", "TableGroup n { }", "Enum n { w }", "Enum s.n { w }", "Table n.t { v int }", "Enum w { n v }", "Enum n.n { v }", "Enum \"s.n\" { v }" }
Kinds18 == { Prj \o x \o "\n" \o y \o "\nTable " \o t \o " { c " \o u \o " [default: v] }" : x \in Things18, y \in Things18, u \in {"n", "public.n", "s.n", "n.n", "\"s.n\""}, t \in {"z", "s.z"} }
Sets18 == { "", "unique", "pk", "null", "not null", "increment", "note: 'x'", "k", "ref: - t.c" }
Context18 == { Prj \o "Table t { c " \o y \o " [" \o JoinBy(s, ", ") \o "] }" :
                 y \in {"char(2)", "varchar(2)", "varchar(2)[]", "varbit(2)[3]", "bool", "bool[]", "smallint", "int[]", "text", "\"bit varying(2)\"", "e"},
                 s \in { <<x, "default: " \o v>> : x \in Sets18 \ {""}, v \in {"'abc'", "''", "true", "40000", "3000000000", "null", "v"} }
                       \cup { <<"default: " \o v, x>> : x \in Sets18 \ {""}, v \in {"'abc'", "''", "true", "40000", "3000000000", "null", "v"} } }
S_C18(u_) ==
  Context18 \cup
  Kinds18 \cup
  { Prj \o "Table t { a int\n c " \o y \o " [default: " \o v \o "] }" : y \in IntTypes, v \in Ints }
  \cup { Prj \o "Table t { c " \o y \o " [default: '" \o v \o "'] }" : y \in StrTypes, v \in Strs }
  \cup { Prj \o "Note: 'é😀'\nTable t { c " \o y \o " [default: \"" \o v \o "\"]\n d int }" : y \in StrTypes, v \in {"a", "ab", "abc", "é", "😀😀"} }
  \cup { Prj \o "Table t { c " \o y \o " [default: '''" \o v \o "''', null] }" : y \in {"char(2)", "varchar(2)", "char"}, v \in Strs }
  \cup { Prj \o "Table t { a int\n c " \o y \o " [default: " \o v \o n \o "] }" : y \in AllTypes \cup {"varchar(1)", "bool[]", "int[]", "\"double precision\""}, v \in DefVals, n \in NullSets }
  \cup { Prj \o "Table t { c int [" \o n \o "default: null] }" : n \in {"", "null, ", "not null, ", "pk, ", "unique, null, "} }
  \cup { EnumCtx \o "Table t { c " \o y \o " [default: " \o v \o n \o "] }" : y \in EnumTypes, v \in EnumDefs, n \in NullSets }
  \cup { Prj \o "Table s.t { c " \o y \o " [default: v] }\n" \o e : y \in EnumTypes, e \in {"", "Enum e { v }", "Enum s.e { v }", "Enum s.e { w }\nEnum e { v }", "Enum e { }"} }
  \cup { Prj \o "Table t { a int b " \o x \o "\n c " \o y \o " }" : x \in {"int", "int [default: 1]", "smallint [default: 40000]"}, y \in {"bool [default: 1]", "text [default: true]", "char(1) [default: 'ab']"} }

(* --------------------------------- C19 resolution ---------------------- *)
Tbls19 == << "Table a as x { id int [pk]\n n int\n m int }", "Table s.b as y { id int [pk]\n n int }", "Table s.a { id int [pk]\n k int }", "Table public.c { id int [unique]\n q int }", "Enum t.e { v }" >>
AllTbls == JoinBy(Tbls19, "\n") \o "\n"
Ends19 == { "a.id", "a.n", "x.id", "public.a.id", "public.x.id", "s.a.id", "s.a.k", "a.k", "s.b.id", "y.id", "b.id", "s.y.id", "public.b.id", "c.id", "public.c.id", "s.c.id", "nosuch.id", "nosuch.a.id", "t.e.id", "t.a.id", "\"a\".\"id\"",
            "A.id", "X.id", "a.ID", "x.zz", "\"public\".a.id", "a.(id)", "s.x.id", "y.n" }
Items19 == { "a", "x", "public.a", "s.a", "y", "b", "s.b", "c", "public.c", "s.c", "nosuch", "nosuch.a", "public.x", "s.y", "\"a\"", "A", "X", "t.e", "e", "t.a", "public.b", "s.x" }
(* one name for things of several kinds: only some of them can be meant    *)
Things == { "", "Table n { i int [pk] }", "Table s.n { i int [pk] }", "Table w as n { i int [pk] }", "Table s.w as n { i int [pk] }", "Enum n { v i }", "Enum s.n { v i }", "TableGroup n { }", "Project n { }",
            "Table n.n { i int [pk] }", "Table w { n int }", "Ref n: w.i > w.i\nTable w { i int [pk] }", "Enum w { n }", "Enum n.n { v i }", "Table w [n] { i int }" }
NameUse == { "n", "public.n", "s.n", "n.n" }
Kinds19 == { (IF x = "Project n { }" \/ y = "Project n { }" THEN "" ELSE Prj) \o x \o "\n" \o y \o "\nTable z { j int }\n" \o u :
               x \in Things, y \in Things, u \in { "TableGroup g { " \o n \o " }" : n \in NameUse } \cup { "Ref: z.j > " \o n \o ".i" : n \in NameUse } }
S_C19(u_) ==
  Kinds19 \cup
  { Prj \o AllTbls \o "Ref: " \o l \o " " \o r \o " " \o e \o "\n" : l \in Ends19, r \in {">"}, e \in Ends19 }
  \cup { Prj \o "Ref: " \o l \o " < " \o e \o "\n" \o AllTbls : l \in Ends19, e \in {"a.n", "x.m", "s.a.k", "zz.id", "s.b.n"} }
  \cup { Prj \o AllTbls \o "Table z { i int [pk, ref: > " \o e \o "]\n j int [ref: - " \o f \o "] }\n" : e \in Ends19, f \in {"a.id", "x.id", "y.id", "q.id"} }
  \cup { Prj \o AllTbls \o "Table s.z { i int [pk, ref: <> " \o e \o "] }\n" : e \in Ends19 }
  \cup { Prj \o "Table w as z { i int [ref: > " \o e \o "] }\nTable z as v { i int [pk] \n j int [ref: > " \o f \o "] }\n" : e \in {"w.i", "z.i", "v.i", "public.z.i", "public.w.i", "z.j", "w.j"}, f \in {"w.i", "z.i", "v.i", "public.z.i", "public.w.i", "z.j"} }
  \cup { Prj \o AllTbls \o "TableGroup g { " \o i \o "\n " \o j \o " }" : i \in Items19, j \in {"", "a", "s.b", "zz", "c"} }
  \cup { Prj \o "TableGroup g { " \o i \o " }\n" \o AllTbls : i \in Items19 }
  \cup { Prj \o "Table s.a as x { id int [pk] }\nTable s.b { id int }\nRef: " \o l \o " > " \o e \o "\nTableGroup g { " \o i \o " }" : l \in {"s.b.id", "b.id", "x.id"}, e \in {"s.a.id", "a.id", "x.id"}, i \in {"a", "x", "s.a", "s.b", "b"} }

(* --------------------------------- C20 types of ends ------------------- *)
Types20 == { "int", "integer", "int4", "int2", "smallint", "bigint", "int8", "serial", "varchar", "varchar(5)", "varchar(6)", "\"character varying\"", "\"character varying(5)\"", "char(5)", "character(5)", "\"int\"", "int[]", "int[3]", "int[4]", "int[][]",
             "\"int[]\"", "\"int[3]\"", "decimal(5,2)", "numeric(5,2)", "numeric(2,5)", "decimal(5,3)", "e", "public.e", "s.e", "\"e\"", "f", "e[]", "e(1)", "timestamp", "\"timestamp without time zone\"", "timestamptz", "\"timestamp with time zone\"", "time",
             "bool", "boolean", "real", "float4", "float8", "\"double precision\"", "text", "uuid", "INT", "Int", "public.int", "bit(5)", "varbit(5)" }
Two20 == { "int", "integer", "text", "varchar(5)", "int[]", "bigint" }
Own20 == { "int", "int4", "text", "int[]", "int[3]", "text[]", "varchar(5)", "varchar(6)", "varchar(5)[]", "e", "s.e", "e[]", "public.e[]", "s.e[]", "int[][]", "\"int[]\"", "decimal(5,2)", "decimal(2,5)[]" }
Few20 == { "int", "text", "int[]", "text[]", "varchar(5)[]", "e[]", "s.e[]" }
S_C20(u_) ==
  (* of a table with itself, or with one of the same name elsewhere          *)
  { Prj \o "Enum e { v }\nEnum s.e { v }\nTable t as z { a " \o x \o " [unique]\n b " \o y \o " }\nTable s.t { a int [unique]\n b int }\nRef: " \o r \o "\n" : x \in Own20, y \in Own20, r \in {"t.b > t.a", "z.a - z.b", "public.t.a < z.b"} }
  \cup { Prj \o "Enum e { v }\nEnum s.e { v }\nTable t { a " \o x \o " [unique, ref: < t.b]\n b " \o y \o " }\n" : x \in Own20, y \in Own20 }
  \cup { Prj \o "Enum e { v }\nEnum s.e { v }\nTable t as z { a " \o x \o " [unique]\n b " \o y \o " }\nTable s.t { a " \o y \o " [unique]\n b " \o x \o " }\nTable s.z { a " \o x \o " [unique] }\nRef: " \o r \o "\n" :
           x \in Few20, y \in Few20, r \in {"t.b > t.a", "t.a > s.t.a", "s.t.b > t.a", "s.t.b > s.t.a", "z.b > s.z.a", "s.z.a < s.t.b", "z.a - s.t.a", "z.a <> s.t.a"} }
  \cup { Prj \o "Table t { a " \o x \o "\n b " \o y \o "\n c " \o z \o "\n indexes { (a, b) [unique] } }\nRef: t.(" \o l \o ") > t.(a, b)\n" : x \in Two20, y \in Two20, z \in {"int", "text"}, l \in {"a, b", "b, a", "c, b", "a, c"} } \cup
  { Prj \o "Table t { a " \o x \o " [unique] }\nTable u { b " \o y \o " }\nRef: u.b > t.a\n" : x \in Types20, y \in Types20 }
  \cup { Prj \o "Table t { a " \o x \o " [unique]\n b " \o y \o " [ref: - a.t] }\nTable a { t " \o x \o " [unique, ref: < t.b] }\n" : x \in Two20, y \in Two20 }
  \cup { Prj \o "Table t { a " \o p \o "\n b " \o q \o "\n indexes { (a, b) [unique] } }\nTable u { a " \o x \o "\n b " \o y \o " }\nRef: u." \o l \o " > t." \o r \o "\n" :
           p \in {"int", "text"}, q \in {"text", "int", "varchar(5)"}, x \in {"int", "text", "integer"}, y \in {"text", "int", "varchar(5)"}, l \in {"(a, b)", "(b, a)"}, r \in {"(a, b)", "(b, a)"} }
  \cup { Prj \o "Table t { a int [unique]\n b int\n c int\n indexes { (a, b) [unique]\n (a, b, c) [pk] } }\nTable u { a int [unique]\n b int\n c int\n indexes { (a, b) [pk] } }\nRef: u." \o l \o " " \o s \o " t." \o r \o "\n" :
           l \in {"a", "(a)", "(a, b)", "(a, b, c)"}, s \in Rels, r \in {"a", "(a)", "(a, b)", "(a, b, c)"} }
  \cup { Prj \o "Enum s.e { v }\nEnum e { v }\nTable s.t { a " \o x \o " [pk] }\nTable u { b " \o y \o " [ref: > s.t.a] }\n" : x \in {"e", "s.e", "public.e", "\"s\".\"e\"", "int"}, y \in {"e", "s.e", "public.e", "\"s\".e", "int"} }
  \cup { Prj \o "Enum \"a.b\".e { v }\nEnum b.e { v }\nTable t { a " \o x \o " [pk] }\nTable u { b " \o y \o " [ref: > t.a] }\n" : x \in {"\"a.b\".e", "b.e", "e", "\"b.a\".e", "\"a.b.c\".e"}, y \in {"\"a.b\".e", "b.e", "e", "\"a\".e", "\"a.b.c\".e"} }

(* ------------------------------------- C21 keys ------------------------ *)
KeyCols == { "a int", "a int [pk]", "a int [unique]", "a int [primary key]", "a int [null]" }
KeyIdx == { "", "indexes { a [pk] }", "indexes { a [unique] }", "indexes { a }", "indexes { a [type: btree] }", "indexes { (a, b) [unique] }", "indexes { (b, a) [pk] }", "indexes { (a) [unique] }", "indexes { `a` [unique] }", "indexes { b [unique] }",
            "indexes { a\n (a) [unique] }", "indexes { (a, b, c) [unique] }", "indexes { (a, `b`) [unique] }", "indexes { (a, b) }", "indexes { (a, b) [type: hash] }", "indexes { a [unique]\n b [unique] }" }
Set21 == { "unique", "pk", "unique: 1", "pk: null", "name: 'n'", "note: 'o'", "type: btree", "x: y", "unique, name: 'n'", "pk, name: 'n'", "unique, note: 'o'", "pk, note: 'o'", "name: 'n', unique", "note: 'o', name: 'n', pk", "x: y, unique", "pk, x",
           "name: 'unique'", "type: hash, name: 'pk'" }
Cols21 == { "a", "(a)", "(a, b)", "(b, a)", "(a, b, c)", "(c, a, b)", "(d, c, b, a)", "(a, b, c, d)", "(a, b, `c`)", "(a, `b`)", "(a, b, d)" }
Ends21 == { "a", "(a)", "(a, b)", "(b, a)", "(a, b, c)", "(b, c, a)", "(a, b, c, d)", "(d, a, b, c)" }
Wide21(e) == CASE e \in {"a", "(a)"} -> "u.x" [] e \in {"(a, b)", "(b, a)"} -> "u.(x, y)" [] e \in {"(a, b, c)", "(b, c, a)"} -> "u.(x, y, z)" [] OTHER -> "u.(x, y, z, w)"
S_C21(u_) ==
  { Prj \o "Table t { a int\n b int\n c int\n d int\n indexes { " \o c \o " [" \o s \o "] } }\nTable u { x int\n y int\n z int\n w int }\nRef: " \o Wide21(e) \o " > t." \o e \o "\n" : c \in Cols21, s \in Set21, e \in Ends21 }
  \cup { Prj \o "Table t { a int [" \o s \o "]\n b int\n c int\n d int\n indexes { b [unique]\n " \o c \o "\n " \o d \o " [unique] } }\nTable u { x int\n y int\n z int\n w int }\nRef: t." \o e \o " < " \o Wide21(e) \o "\n" :
           s \in {"not null", "unique, note: 'n'", "note: 'n'"}, c \in Cols21, d \in Cols21, e \in Ends21 } \cup
  { Prj \o "Table t {\n " \o x \o "\n b int\n c int\n " \o i \o "\n}\nTable u { a int\n b int }\nRef: t.a " \o r \o " u.a\nRef: u.b " \o r \o " t.a\n" : x \in KeyCols, i \in KeyIdx, r \in Rels }
  \cup { Prj \o "Table t {\n " \o x \o "\n b int\n c int\n " \o i \o "\n}\nTable u { " \o y \o "\n b int\n " \o j \o " }\nRef: t.a " \o r \o " u.a\n" : x \in {"a int", "a int [pk]"}, i \in KeyIdx, y \in {"a int", "a int [unique]"}, j \in {"", "indexes { a [unique] }", "indexes { (a, b) [pk] }"}, r \in Rels }
  \cup { Prj \o "Table t {\n " \o x \o "\n b int [unique]\n c int\n " \o i \o "\n}\nTable u { a int [unique]\n b int [unique]\n " \o j \o " }\nRef: t.(" \o l \o ") " \o r \o " u.(a, b)\n" :
           x \in {"a int", "a int [pk]", "a int [unique]"}, i \in KeyIdx, j \in {"", "indexes { (a, b) [unique] }", "indexes { (b, a) [pk] }"}, l \in {"a, b", "b, a", "a, c"}, r \in Rels }
  \cup { Prj \o "Table t { a int " \o k \o " [ref: " \o r \o " u.a]\n indexes { b [unique] } b int }\nTable u { a int " \o m \o " }\n" : k \in {""}, m \in {"", "[pk]", "[unique]"}, r \in Rels }
  \cup { Prj \o "Table t { a int [" \o k \o "ref: " \o r \o " u.a] }\nTable u { a int " \o m \o "\n " \o j \o " }\n" : k \in {"", "pk, ", "unique, "}, m \in {"", "[pk]", "[unique]"}, r \in Rels, j \in {"", "indexes { a [unique] }", "indexes { a }"} }

(* ----------------------------------- C22 conflicts --------------------- *)
Tbls22 == "Table t as x { a int [unique]\n b int [unique]\n c int\n indexes { (a, b) [unique] } }\nTable s.u as y { a int [unique]\n b int [unique]\n c int\n indexes { (a, b) [unique] } }\nTable w { a int [unique]\n b int [unique]\n indexes { (a, b) [unique] } }\n"
Ends22 == { "t.a", "x.a", "public.t.a", "s.u.a", "y.a", "w.a", "t.b" }
Refs22 == { l \o " " \o r \o " " \o e : l \in Ends22, r \in Rels, e \in Ends22 }
Few22 == { l \o " " \o r \o " " \o e : l \in {"t.a", "x.a", "s.u.a"}, r \in Rels, e \in {"y.a", "s.u.a", "w.a", "t.a"} }
Comp22 == { l \o " " \o r \o " " \o e : l \in {"t.(a, b)", "x.(b, a)", "t.a"}, r \in Rels, e \in {"y.(a, b)", "s.u.(b, a)", "w.(a, b)"} }
Loops22 == { l \o " " \o r \o " " \o e : l \in {"t.a", "x.a", "t.b", "w.a"}, r \in Rels, e \in {"t.a", "t.b", "y.a", "w.a"} }
(* as little around as there can be, and all that may be said of a relationship *)
One22 == "Table t as x { a int [unique]\n b int [unique] }\n"
Said22 == { "t.a > t.b", "x.a > t.b", "t.b < x.a", "x.b > x.a", "public.t.a - x.b", "t.b - t.a", "t.a <> t.b", "x.b <> t.a", "t.a > t.a", "x.a - x.a" }
How22 == { <<"Ref: ", " [delete: cascade]\n">>, <<"Ref n: ", "\n">>, <<"Ref n { ", " }\n">>, <<"Ref { ", " [k: 1, update: set null] }\n">>, <<"Ref: ", " [x]\n">>, <<"Ref: ", " []\n">> }
Alone22 == { Prj \o One22 \o h[1] \o f \o h[2] \o g[1] \o e \o g[2] : h \in How22, g \in How22, f \in Said22, e \in Said22 }
S_C22(u_) ==
  Alone22 \cup
  { Prj \o Tbls22 \o "Ref: " \o f \o "\nRef: " \o g \o "\n" : f \in Refs22, g \in Few22 }
  \cup { Prj \o Tbls22 \o "Ref: " \o f \o "\nRef m { " \o g \o " }\n" : f \in Comp22, g \in Comp22 }
  \cup { Prj \o Tbls22 \o "Ref: " \o f \o "\nTable z { a int [unique, ref: " \o r \o " t.a]\n b int [unique" \o q \o "] }\n" : f \in {"z.a > t.a", "z.a - t.a", "t.a < z.a", "t.a - z.a", "z.a > y.a", "t.a <> z.a", "z.a <> x.a", "z.b > t.a", "z.a < x.a", "x.a > z.a"}, r \in Rels, q \in {"", ", ref: > t.a", ", ref: - x.a", ", ref: < s.u.a"} }
  \cup { Prj \o Tbls22 \o "Table z { c int [ref: " \o r \o " t.a, ref: " \o q \o " " \o e \o ", unique] }\n" : r \in Rels, q \in Rels, e \in {"t.a", "x.a", "t.b", "y.a", "w.a"} }
  \cup { Prj \o Tbls22 \o "Ref: " \o f \o "\nRef: t.b - w.b\nRef: " \o g \o "\n" : f \in Few22, g \in {"t.a > w.a", "w.a < t.a", "t.a - s.u.a", "y.a - x.a", "w.a <> t.a", "t.b > w.b", "w.b - t.b"} }
  \cup { Prj \o Tbls22 \o "Ref: " \o f \o "\nRef: " \o g \o "\n" : f \in Loops22, g \in Loops22 }
  \cup { Prj \o "Table z as t { a int [unique, ref: > t.a]\n b int [unique] }\nTable t as v { a int [unique, ref: " \o r \o " " \o e \o "]\n b int [unique] }\n" : r \in Rels, e \in {"z.a", "t.a", "v.a", "public.t.a", "t.b"} }

Scope(p) ==
  CASE p = "C02" -> S_C02(0) [] p = "C03" -> S_C03(0) [] p = "C04" -> S_C04(0) [] p = "C05" -> S_C05(0) [] p = "C06" -> S_C06(0) [] p = "C07" -> S_C07(0)
    [] p = "C12" -> S_C12(0) [] p = "C13" -> S_C13(0) [] p = "C14" -> S_C14(0) [] p = "C15" -> S_C15(0) [] p = "C16" -> S_C16(0) [] p = "C17" -> S_C17(0)
    [] p = "C18" -> S_C18(0) [] p = "C19" -> S_C19(0) [] p = "C20" -> S_C20(0) [] p = "C21" -> S_C21(0) [] p = "C22" -> S_C22(0)

(* ------------------------- families of variants ------------------------ *)
(* A family is a sequence of texts; the properties speak of the first one  *)
(* and each of the others.                                                 *)

(* C09: tokens with gaps.  "~o" may be empty, "~r" and "~k" (after a        *)
(* keyword) may not, "~l" ends a line of a list of words.  "%x" is a        *)
(* keyword, "@x" an identifier that needs no quotes.                       *)
Seeds09 == {
  <<"%Table", "~k", "@t", "~r", "%as", "~r", "@al", "~o", "[", "~o", "k", "~o", ":", "~o", "'v'", "~o", ",", "~o", "m", "~o", "]", "~o", "{", "~o", "@id", "~r", "int", "~o", "[", "~o", "pk", "~o", ",", "~o", "note", "~o", ":", "~o", "'n'", "~o", "]",
    "~o", "@b", "~r", "varchar(5)", "~r", "%note", "~o", ":", "~o", "'x'", "~o", "}", "~o", "%Project", "~k", "@p", "~o", "{", "~o", "}">>,
  <<"%Project", "~k", "@p", "~o", "{", "~o", "database_type", "~o", ":", "~o", "'PostgreSQL'", "~l", "k", "~o", ":", "~o", "word", "~l", "%Note", "~o", "{", "~o", "'n'", "~o", "}", "~o", "}", "~o", "%Enum", "~k", "@s", "~o", ".", "~o", "@e", "~o", "{", "~o", "@a", "~r", "@b",
    "~o", "[", "~o", "note", "~o", ":", "~o", "'n'", "~o", "]", "~o", "@c", "~o", "}", "~o", "%Note", "~o", ":", "~o", "'x'">>,
  <<"%Project", "~k", "@p", "~o", "{", "~o", "}", "~o", "%Table", "~k", "@s", "~o", ".", "~o", "@t", "~o", "{", "~o", "@a", "~r", "int", "~r", "@b", "~r", "int", "~o", "[", "~o", "ref", "~o", ":", "~o", "-", "~o", "@s", "~o", ".", "~o", "@t", "~o", ".", "~o", "@a", "~o", "]", "~o",
    "%indexes", "~o", "{", "~o", "@a", "~o", "[", "~o", "pk", "~o", "]", "~o", "(", "~o", "@a", "~o", ",", "~o", "@b", "~o", ")", "~o", "[", "~o", "unique", "~o", ",", "~o", "name", "~o", ":", "~o", "'n'", "~o", "]", "~o", "}", "~o", "}">>,
  <<"%Project", "~k", "@p", "~o", "{", "~o", "}", "~o", "%Table", "~k", "@t", "~o", "{", "~o", "@a", "~r", "int", "~r", "@b", "~r", "int", "~o", "%Indexes", "~o", "{", "~o", "(", "~o", "@a", "~o", ",", "~o", "@b", "~o", ")", "~o", "[", "~o", "unique", "~o", "]", "~o", "`x`", "~o", "}", "~o", "}",
    "~o", "%Ref", "~r", "@n", "~o", ":", "~o", "@t", "~o", ".", "~o", "(", "~o", "@a", "~o", ",", "~o", "@b", "~o", ")", "~o", ">", "~o", "@t", "~o", ".", "~o", "(", "~o", "@b", "~o", ",", "~o", "@a", "~o", ")", "~o", "[", "~o", "update", "~o", ":", "~o", "cascade", "~o", "]", "~l",
    "%TableGroup", "~k", "@g", "~o", "[", "~o", "k", "~o", "]", "~o", "{", "~o", "@t", "~o", "%note", "~o", ":", "~o", "'n'", "~o", "}">>,
  <<"%Project", "~k", "@p", "~o", "{", "~o", "}", "~o", "%Ref", "~o", "{", "~o", "@a", "~o", ".", "~o", "@b", "~o", "<>", "~o", "@c", "~o", ".", "~o", "@d", "~o", "[", "~o", "delete", "~o", ":", "~o", "set null", "~o", "]", "~o", "}", "~o", "%Table", "~k", "@a", "~o", "{", "~o", "@b",
    "~r", "int", "~o", "[", "~o", "unique", "~o", "]", "~o", "}", "~o", "%Table", "~k", "@c", "~o", "{", "~o", "@d", "~r", "int", "~o", "[", "~o", "not null", "~o", ",", "~o", "pk", "~o", ",", "~o", "default", "~o", ":", "~o", "1.5", "~o", "]", "~o", "}">> }
Blanks09 == { " ", "\n", "\t", "\r\n", "   ", "\n\n", " /* c */ ", "/* ' \" { */", " // c\n", "\n// { ' \"\n ", "/* a\n b */", "/* a /* b */", "// /*\n", "/* // */", "/**/", "/***/", "/*/*/", "//\n", "// */\n", "/* * / */", "//*\n", "/* c *//* d */", "// c // d\n// e\n", "\r", "// c\r", "//\r/* d */" }
Lines09 == { "\n", "\n\n", "\r\n", " \n ", "\n/* c */\n", " // c\n", "\n\t", " /* a /* b */\n", " // /*\n", "/**/ //\n", "\r", " // c\r" }
IsGap(x) == x \in {"~o", "~r", "~k", "~l"}
Gaps(x) == CASE x = "~o" -> Blanks09 \cup {""} [] x = "~r" -> Blanks09 [] x = "~k" -> { " " \o b : b \in Blanks09 \cup {""} } [] x = "~l" -> Lines09
Usual(x) == IF x = "~l" THEN "\n" ELSE IF x = "~o" THEN "" ELSE " "
Mark(x) == SubSeq(x, 1, 1)
Rest(x) == SubSeq(x, 2, Len(x))
LowerOf == [k \in {"Table", "Project", "Enum", "Ref", "TableGroup", "Note", "note", "indexes", "Indexes", "as"} |->
  CASE k = "Table" -> {"table", "TABLE", "tAbLe"} [] k = "Project" -> {"project", "PROJECT", "pROJECt"} [] k = "Enum" -> {"enum", "ENUM", "EnUm"} [] k = "Ref" -> {"ref", "REF", "rEF"}
    [] k = "TableGroup" -> {"tablegroup", "TABLEGROUP", "tableGroup", "Tablegroup"} [] k \in {"Note", "note"} -> {"note", "Note", "NOTE", "nOtE"}
    [] k \in {"Indexes", "indexes"} -> {"indexes", "Indexes", "INDEXES", "iNDexes"} [] OTHER -> {"as"}]
Plain09(x) == IF IsGap(x) THEN Usual(x) ELSE IF Mark(x) \in {"%", "@"} THEN Rest(x) ELSE x
Texts09(x) == IF IsGap(x) THEN Gaps(x)
              ELSE IF Mark(x) = "%" THEN LowerOf[Rest(x)]
              ELSE IF Mark(x) = "@" THEN { "\"" \o Rest(x) \o "\"" }
              ELSE {}
Put(s, f(_)) == J([k \in 1..Len(s) |-> f(s[k])])
OneOff(s) == UNION { { J([k \in 1..Len(s) |-> IF k = n THEN t ELSE Plain09(s[k])]) : t \in Texts09(s[n]) } : n \in 1..Len(s) }
AllOff(s) == { Put(s, LAMBDA x : IF x = "~o" THEN o ELSE IF x = "~r" THEN r ELSE IF x = "~k" THEN " " \o o ELSE IF x = "~l" THEN n ELSE Plain09(x))
                 : o \in Blanks09 \cup {""}, r \in Upto({" ", "\n"}, Blanks09), n \in Upto({"\n"}, Lines09) }
             \cup { Put(s, LAMBDA x : IF Mark(x) = "@" THEN "\"" \o Rest(x) \o "\"" ELSE Plain09(x)) }
F_C09 == { << Put(s, Plain09) >> \o SetToSeq(OneOff(s) \cup AllOff(s)) : s \in Seeds09 }

(* C26: every order of declarations that refer to one another              *)
Decls26 == {
  << "Project p { database_type: 'PostgreSQL' }", "Table a as x { i int [pk] }", "Table s.b { i int [ref: > x.i] }", "TableGroup g { x s.b }" >>,
  << "Project p { }", "Table a { i e\n j int }", "Enum e { v }", "Ref: b.i > a.j", "Table b { i int }" >>,
  << "Project p { }", "Table a { i e [unique, default: v] }", "Enum e { v }", "Ref: b.i > a.i", "Table b { i e }" >>,
  << "Project p { }", "Table a { i s.e [default: v] }", "Enum s.e { w }", "Enum e { v }" >>,
  << "Project p { }", "Table a { i s.e [default: w] }", "Enum s.e { w }", "Table s.t { i int }" >>,
  << "Project p { }", "Table a { i int [unique] }", "Table b { i int [ref: > a.i] }", "Ref: a.i < b.i" >>,
  << "Project p { }", "Table a { i int [unique] }", "Table b as a { i int [unique] }", "Ref: a.i > a.i", "TableGroup g { a }" >>,
  << "Project p { }", "Table a as b { i int [unique] }", "Table b as c { i int [unique] }", "Ref: b.i > c.i", "Ref: c.i > a.i" >>,
  << "Project p { }", "Table a { i int }", "Table public.a { j int }", "TableGroup a { a }" >>,
  << "Project p { }", "Project q { }", "Table a { i int }" >>,
  << "Table a { i int }", "Enum a { v }", "TableGroup a { a }", "Note: 'n'", "Project p { }" >>,
  << "Project p { }", "TableGroup g { a b }", "TableGroup h { a s.a }", "Table a { i int }", "Table s.a as b { i int }" >>,
  << "Project p { }", "TableGroup g { a b }", "TableGroup g { a }", "Table a { i int }", "Table s.a as b { i int }" >>,
  << "Project p { }", "Table a { i e [unique] }", "Table b { i s.e [ref: - a.i] }", "Enum e { v }", "Enum s.e { v }" >>,
  << "Project p { }", "Table a { i e [unique] }", "Table b { i public.e [ref: - a.i] }", "Enum e { v }" >>,
  << "Project p { }", "Table a { i int [unique] }", "Table s.a { i int [unique] }", "Ref: a.i <> s.a.i", "Ref: s.a.i <> a.i" >>,
  << "Project p { }", "Table a { i int [unique] }", "Table s.a { i int [unique, ref: - a.i] }", "Ref: s.a.i > a.i" >>,
  << "Project p { }", "Table a { i int [pk]\n j int [pk] }", "Table b { i int }", "Enum e { v v }" >>,
  << "Project p { }", "Table a { i int\n indexes { j } }", "Table b { j int }" >>,
  << "Project p { }", "Table a { i varchar(5) [unique] }", "Table b { i varchar(6) }", "Ref: b.i > a.i" >>,
  << "Project p { }", "Table a as z { i int [pk]\n j int }", "Ref: z.j > a.i", "Ref: b.i > z.i", "Table b { i int }" >>,
  << "Project p { }", "Table s.a as z { i int [pk] }", "Ref: z.i < s.b.i", "Ref: b.i > z.i", "Table b { i int }", "Table s.b { i int }" >> }
More26 == { << "Project p { }", "Table a as x { i int [unique] }", "Table s.a as y { i int [unique] }", "Enum e { v }", l \o " " \o r \o " " \o q, "TableGroup g { " \o m \o " }" >> :
            l \in {"Ref: x.i", "Ref: a.i", "Ref: public.x.i"}, r \in {">", "<>"}, q \in {"y.i", "s.a.i", "a.i"}, m \in {"x y", "a s.a", "x a", "s.y"} }
F_C26 == { LET w == JoinBy(s, "\n") IN << w >> \o SetToSeq({ JoinBy(t, "\n") : t \in Reorderings(s) } \ {w}) : s \in Decls26 \cup (IF Big THEN More26 ELSE {}) }

(* C28: ways to write one relationship                                     *)
Turn28 == [x \in Rels |-> CASE x = "<" -> ">" [] x = ">" -> "<" [] OTHER -> x]
Tables28(t, kt, i, u, ku, lt(_), lu(_)) ==
  Prj \o "Table t as x { b " \o t \o lt(kt) \o "\n c int" \o i \o " }\nTable s.u as y { a " \o u \o lu(ku) \o "\n d int }\nTable public.w { a int [unique]\n b int }\nEnum e { v }\n"
Brackets(x) == IF x = "" THEN "" ELSE " [" \o x \o "]"
And(x, y) == IF x = "" THEN y ELSE x \o ", " \o y
Ways28(rel, t, kt, i, u, ku, more) ==
  LET decl(x) == Tables28(t, kt, i, u, ku, Brackets, Brackets) \o x \o "\n" \o more
      inu(x) == Tables28(t, kt, i, u, ku, Brackets, LAMBDA k : Brackets(And(k, "ref: " \o x))) \o more
      int_(x) == Tables28(t, kt, i, u, ku, LAMBDA k : Brackets(And(k, "ref: " \o x)), Brackets) \o more
      back == Turn28[rel]
  IN << decl("Ref: s.u.a " \o rel \o " t.b"), decl("Ref: y.a " \o rel \o " x.b"), decl("Ref n: s.u.(a) " \o rel \o " public.t.b"), decl("Ref { x.b " \o back \o " s.u.a }"), decl("Ref: t.b " \o back \o " y.a"),
        inu("> t.b"), inu(rel \o " t.b"), inu(rel \o " x.b"), inu(rel \o " public.t.b"), int_(back \o " s.u.a"), int_(back \o " y.(a)") >>
  (* the sixth is the first one if rel is ">" and is left out otherwise      *)
Fam28(s, rel) == IF rel = ">" THEN s ELSE SubSeq(s, 1, 5) \o SubSeq(s, 7, Len(s))
Single28 == { Fam28(Ways28(rel, tu[1], kt[1], kt[2], tu[2], ku, more), rel) :
             rel \in Rels, tu \in {<<"int", "int">>, <<"int", "text">>, <<"varchar(5)", "varchar(5)">>, <<"int[]", "int">>, <<"e", "public.e">>},
             kt \in {<<"", "">>, <<"unique", "">>, <<"pk, note: 'n'", "">>, <<"", "\n indexes { b [unique] }">>, <<"", "\n indexes { (b, c) [unique] }">>}, ku \in {"", "unique", "null"},
             more \in {"", "Ref: w.a > t.b", "Ref: s.u.a > w.a", "Ref: s.u.a - t.b", "Ref: x.b < y.a"} }

(* one relationship over several columns, its tables named in every way     *)
Said28(N, l, rel, M, r) ==
  LET one(h, n, m, e) == { h \o n \o l \o " " \o rel \o " " \o m \o r \o e, h \o m \o r \o " " \o Turn28[rel] \o " " \o n \o l \o e }
  IN UNION { one("Ref: ", n, m, "") \cup (IF Big THEN one("Ref q { ", n, m, " }") ELSE {}) : n \in N, m \in M }
     \cup UNION { one("Ref q: ", CHOOSE n \in N : TRUE, CHOOSE m \in M : TRUE, e) : e \in {" []", " [delete: cascade]"} }
Fams28(before, said, after) == LET s == SetToSeq({ before \o x \o after : x \in said }) IN s
Three28(n, al, idx) == "Table " \o n \o al \o " { a int\n b int\n c text\n" \o idx \o " }\n"
Keys28 == { "", " indexes { (a, b) [unique] }", " indexes { (b, a) [pk] }", " indexes { (c, a, b) [unique] }", " indexes { a [unique]\n b [unique] }" }
Wide28 == { Fams28(Prj \o Three28("t", " as x", kt) \o Three28("s.u", " as y", ku), Said28({"s.u", "y"}, "." \o lr[1], rel, {"t", "x", "public.t"}, "." \o lr[2]), more) :
              rel \in Rels, kt \in Keys28, ku \in Keys28 \ {" indexes { (b, a) [pk] }"},
              lr \in {<<"(a, b)", "(a, b)">>, <<"(a, b)", "(b, a)">>, <<"(a, b, c)", "(a, b, c)">>, <<"(a, b)", "(a, c)">>, <<"(a, b, c)", "(b, a)">>},
              more \in {"", "\nRef: y.(b, a) > x.(b, a)"} }
Pub28 == { Fams28(Prj \o Three28("t", " as x", kt) \o Three28("public.w", " as z", kw), Said28({"w", "z", "public.w"}, "." \o lr[1], rel, {"t", "x", "public.t"}, "." \o lr[2]), "") :
              rel \in Rels, kt \in Keys28, kw \in {"", " indexes { (a, b) [unique] }"}, lr \in {<<"(a, b)", "(a, b)">>, <<"(a)", "b">>, <<"c", "c">>} }
(* of a table with itself, declared or on a column                         *)
Own28(n, al, a, b, N, rel, more) ==
  LET tab(x, y) == Prj \o "Table " \o n \o al \o " { a " \o a[1] \o Brackets(x) \o "\n b " \o b[1] \o Brackets(y) \o "\n c int }\n" \o more
      ways == { tab(a[2], b[2]) \o x : x \in Said28(N, ".b", rel, N, ".a") }
              \cup { tab(a[2], And(b[2], "ref: " \o rel \o " " \o m \o ".a")) : m \in N } \cup { tab(And(a[2], "ref: " \o Turn28[rel] \o " " \o m \o ".b"), b[2]) : m \in N }
  IN SetToSeq(ways)
Self28 == { Own28(n[1], " as x", a, b, n[2], rel, more) :
              n \in {<<"t", {"t", "x", "public.t"}>>, <<"public.t", {"t", "x", "public.t"}>>, <<"s.t", {"s.t", "x"}>>}, rel \in Rels,
              a \in {<<"int", "pk">>, <<"int", "">>, <<"e[]", "unique">>} \cup Upto({}, {<<"\"character varying(5)\"", "unique">>}), b \in {<<"int", "">>, <<"int", "unique">>, <<"public.e[]", "">>, <<"varchar(5)", "null">>},
              more \in {"Enum e { v }\nRef: x.c > x.a\n", "Ref: x.a - x.b\n"} }
F_C28 == Single28 \cup Wide28 \cup Pub28 \cup Self28

(* The families wanted are those p for which SCOPE_p names a file.         *)
FamilyScopes == {"C09", "C26", "C28"}
SoleScopes == {"C02", "C03", "C04", "C05", "C06", "C07", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}
Families(p) == CASE p = "C09" -> F_C09 [] p = "C26" -> F_C26 [] p = "C28" -> F_C28
Plain(p) == LET s == SetToSeq(Scope(p)) IN [k \in 1..Len(s) |-> [txt |-> s[k]]]
RECURSIVE Joined(_, _, _)
Joined(f, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN f[a] ELSE LET m == (a + b) \div 2 IN Joined(f, a, m) \o Joined(f, m + 1, b)
Grouped(p) == LET f == SetToSeq(Families(p)) IN Joined([k \in 1..Len(f) |-> [n \in 1..Len(f[k]) |-> [txt |-> f[k][n], fam |-> k]]], 1, Len(f))
Lines(p) == IF p \in FamilyScopes THEN Grouped(p) ELSE Plain(p)
ASSUME \A p \in FamilyScopes \cup SoleScopes :
         ("SCOPE_" \o p) \in DOMAIN IOEnv =>
           \E s \in {Lines(p)} : /\ ndJsonSerialize(IOEnv["SCOPE_" \o p], s)
                                 /\ PrintT(<<"SCOPE", p, Len(s)>>)
=============================================================================
