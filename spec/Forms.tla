-------------------------------- MODULE Forms -------------------------------
(* The public text forms of the tree's small types: which texts are read,  *)
(* as what, and how values are printed.                                    *)
EXTENDS Rules

RelationForms == [x \in {"<", ">", "-", "<>"} |->
  CASE x = "<" -> "One2Many" [] x = ">" -> "Many2One" [] x = "-" -> "One2One" [] x = "<>" -> "Many2Many"]
ActionForms == [x \in Actions |->
  CASE x = "no action" -> "NoAction" [] x = "cascade" -> "Cascade" [] x = "restrict" -> "Restrict"
    [] x = "set null" -> "SetNull" [] x = "set default" -> "SetDefault"]
IndexForms == [x \in IndexTypes |->
  CASE x = "btree" -> "BTree" [] x = "gin" -> "Gin" [] x = "gist" -> "Gist" [] x = "hash" -> "Hash"]
ValueForms == [x \in {"true", "false", "null"} |->
  CASE x = "true" -> "Bool(true)" [] x = "false" -> "Bool(false)" [] x = "null" -> "Null"]

Get(f, x) == IF x \in DOMAIN f THEN <<f[x]>> ELSE <<>>

(* What reading text x as this kind gives (<<>>: refused); for print-...,  *)
(* the printed form of the value that x stands for.                        *)
Form(kind, x) ==
  CASE kind = "type" -> Get(Builtin, x)
    [] kind = "relation" -> Get(RelationForms, x)
    [] kind = "action" -> Get(ActionForms, x)
    [] kind = "action-print" -> IF x \in Actions THEN <<x>> ELSE <<>>
    [] kind = "index" -> Get(IndexForms, x)
    [] kind = "db" -> <<IF x = "PostgreSQL" THEN "P" ELSE "U:" \o x>>
    [] kind = "value" -> Get(ValueForms, x)
    [] kind \in {"print-str", "print-enum", "print-hex", "print-expr", "print-bool"} -> <<x>>
    [] kind = "print-null" -> <<"null">>
    [] kind = "print-int" -> <<IF Ch(x, 1) = "-" THEN "-" \o CanonInt(Sub(x, 2, Len(x))) ELSE CanonInt(x)>>
    [] kind = "print-dec" ->
         LET neg == Ch(x, 1) = "-"
             y == IF neg THEN Sub(x, 2, Len(x)) ELSE x
             d == DigitsEnd(y, 1)
         IN <<(IF neg THEN "-" ELSE "") \o CanonDec(Sub(y, 1, d - 1), Sub(y, d + 1, Len(y)))>>

Kinds == {"type", "relation", "action", "action-print", "index", "db", "value",
          "print-str", "print-enum", "print-hex", "print-expr", "print-bool", "print-null", "print-int", "print-dec"}

(* Different spellings of one variant and one variant per spelling.        *)
OwnVariants == /\ \A x, y \in DOMAIN RelationForms : RelationForms[x] = RelationForms[y] => x = y
               /\ \A x, y \in DOMAIN ActionForms : ActionForms[x] = ActionForms[y] => x = y
               /\ \A x, y \in DOMAIN IndexForms : IndexForms[x] = IndexForms[y] => x = y
               /\ \A x \in Actions : Form("action-print", x) = <<x>>
               /\ \A k, m \in 1..Len(TypeTable) : TypeTable[k][1] = TypeTable[m][1] => k = m

(* Texts worth trying: every known word and its neighbours.                *)
Known == TypeNames \cup Actions \cup IndexTypes \cup DOMAIN RelationForms \cup DOMAIN ValueForms
         \cup {"PostgreSQL", "", " ", "Raw", "Enum", "Undef", "undef", "raw", "enum", "MySQL", "postgresql", "POSTGRESQL", "Postgres", "=", "--", "><", "<<", "string",
               "interval", "int16", "int1", "float", "float2", "double", "varchar2", "datetime", "timestampz", "number", "yes", "no", "0", "1", "True", "NULL", "none",
               "serial1", "serial16", "bigint8", "numeric(1,2)", "varchar(5)", "int[]", "setnull", "set_null", "no_action", "NoAction", "SET NULL", "Cascade", "b-tree", "brin", "spgist"}
UpperCh(c) == IF c \in Lower THEN CHOOSE u \in Upper : LowerOf[u] = c ELSE c
RECURSIVE MapCh(_, _)
MapCh(F(_), x) == IF x = "" THEN "" ELSE F(SubSeq(x, 1, 1)) \o MapCh(F, SubSeq(x, 2, Len(x)))
Near_(x) == {x, x \o " ", " " \o x, x \o "s", x \o "2", "_" \o x, x \o x, MapCh(UpperCh, x), MapCh(ToLower, x), "'" \o x \o "'", "\"" \o x \o "\"", "public." \o x}
            \cup (IF x = "" THEN {} ELSE {UpperCh(SubSeq(x, 1, 1)) \o SubSeq(x, 2, Len(x)), SubSeq(x, 2, Len(x)), SubSeq(x, 1, Len(x) - 1),
                                          MapCh(LAMBDA c : IF c = " " THEN "_" ELSE c, x), MapCh(LAMBDA c : IF c = " " THEN "" ELSE c, x),
                                          MapCh(LAMBDA c : IF c = " " THEN "  " ELSE c, x)})
ReadKinds == {"type", "relation", "action", "action-print", "index", "db", "value"}
Ints_ == {"0", "1", "-1", "7", "10", "100", "-10", "32767", "32768", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807",
          "-9223372036854775808", "1000000", "123456789012345678"}
Decs_ == {"0.5", "1.5", "-1.5", "0.1", "0.125", "100.25", "3.14159", "12345.678", "1000000.5", "99999999.125", "0.001", "-0.75", "10", "100", "1000000000", "2.50", "7.0", "123456789.5", "0.30000", "1.10", "1000000000000000.0", "10000000000000000.0", "100000000000000000000.0", "1000000000000000000000000000000.0",
          "123456789012345.0", "0.000001", "0.0000001", "0.00000000000123", "0.0", "00.50", "999999999999999.0", "4503599627370496.0", "9007199254740992.0", "123456000000000000000000.0", "0.1000000", "-0.0000001", "-1000000000000000.0"}
Strs_ == {"", "a", "a b", "it's", "\"q\"", "`e`", "#fff", "#ABCDEF", "now()", " a ", "a\nb", "a\\nb", "'x'", "null", "true", "5", "x\ty", "{x}", "%s", "a.b", "Enum(a)", "\\", "//c", "0"}
ProbeSet ==
  { [kind |-> k, txt |-> x] : k \in ReadKinds, x \in UNION { Near_(y) : y \in Known } }
  \cup { [kind |-> k, txt |-> x] : k \in {"print-str", "print-enum", "print-hex", "print-expr"}, x \in Strs_ }
  \cup { [kind |-> "print-int", txt |-> x] : x \in Ints_ } \cup { [kind |-> "print-dec", txt |-> x] : x \in Decs_ }
  \cup { [kind |-> "print-bool", txt |-> x] : x \in {"true", "false"} } \cup { [kind |-> "print-null", txt |-> ""] }
=============================================================================
