-------------------------------- MODULE Rules -------------------------------
(* Built-in types, kinds of faults, their messages and their properties.   *)
EXTENDS Tree

Public == "public"

(* spelling -> the type's variant *)
TypeTable == <<
  <<"bit", "Bit">>, <<"varbit", "Varbit">>, <<"bit varying", "Varbit">>,
  <<"char", "Char">>, <<"character", "Char">>, <<"varchar", "VarChar">>, <<"character varying", "VarChar">>,
  <<"box", "Box">>, <<"cidr", "Cidr">>, <<"circle", "Circle">>, <<"inet", "Inet">>, <<"line", "Line">>,
  <<"lseg", "LineSegment">>, <<"macaddr", "MacAddr">>, <<"macaddr8", "MacAddr8">>, <<"money", "Money">>,
  <<"path", "Path">>, <<"pg_lsn", "PGLongSequenceNumber">>, <<"pg_snapshot", "PGSnapshot">>,
  <<"point", "Point">>, <<"polygon", "Polygon">>, <<"tsquery", "TSQuery">>, <<"tsvector", "TSVector">>,
  <<"smallserial", "SmallSerial">>, <<"serial2", "SmallSerial">>, <<"serial", "Serial">>, <<"serial4", "Serial">>,
  <<"bigserial", "BigSerial">>, <<"serial8", "BigSerial">>, <<"smallint", "SmallInt">>, <<"int2", "SmallInt">>,
  <<"integer", "Integer">>, <<"int", "Integer">>, <<"int4", "Integer">>, <<"bigint", "BigInt">>, <<"int8", "BigInt">>,
  <<"real", "Real">>, <<"float4", "Real">>, <<"double precision", "DoublePrecision">>, <<"float8", "DoublePrecision">>,
  <<"bool", "Bool">>, <<"boolean", "Bool">>, <<"bytea", "ByteArray">>, <<"date", "Date">>, <<"text", "Text">>,
  <<"time", "Time">>, <<"time without time zone", "Time">>, <<"timetz", "Timetz">>, <<"time with time zone", "Timetz">>,
  <<"timestamp", "Timestamp">>, <<"timestamp without time zone", "Timestamp">>,
  <<"timestamptz", "Timestamptz">>, <<"timestamp with time zone", "Timestamptz">>,
  <<"uuid", "Uuid">>, <<"json", "Json">>, <<"jsonb", "Jsonb">>, <<"decimal", "Decimal">>, <<"numeric", "Decimal">>,
  <<"xml", "Xml">> >>
TypeNames == { TypeTable[k][1] : k \in 1..Len(TypeTable) }
Builtin == [n \in TypeNames |-> TypeTable[CHOOSE k \in 1..Len(TypeTable) : TypeTable[k][1] = n][2]]

OneArg == {"VarChar", "Char", "Time", "Timestamp", "Timetz", "Timestamptz", "Bit", "Varbit"}
TwoArgs == {"Decimal"}
ArgCount(variant) == IF variant \in OneArg THEN 1 ELSE IF variant \in TwoArgs THEN 2 ELSE 0
FixedLength == {"Bit", "Char"}
MaxLength == {"Varbit", "VarChar"}

(* kind of fault -> the properties it belongs to, and how its message begins *)
FaultTable == <<
  <<"ProjectMissing",    {"C12"}, "Project setting not found">>,
  <<"ProjectTwice",      {"C12"}, "Duplicate project setting">>,
  <<"PropTwice",         {"C12"}, "Duplicate property key">>,
  <<"TableTwice",        {"C13"}, "Duplicate table name">>,
  <<"ColumnTwice",       {"C13"}, "Duplicate column name">>,
  <<"AliasTwice",        {"C13"}, "Duplicate alias">>,
  <<"EnumTwice",         {"C13"}, "Duplicate enum name">>,
  <<"EnumValueTwice",    {"C13"}, "Duplicate enum value">>,
  <<"GroupTwice",        {"C13"}, "Duplicate table group name">>,
  <<"GroupItemTwice",    {"C13"}, "Duplicate table group item">>,
  <<"KeyTwice",          {"C14"}, "Duplicate attribute key">>,
  <<"PkTwice",           {"C15"}, "Duplicate primary key">>,
  <<"PkNull",            {"C15"}, "Nullable primary key">>,
  <<"PkArray",           {"C15"}, "Array primary key">>,
  <<"NullAndNotNull",    {"C15"}, "Conflict nullable setting">>,
  <<"IndexEmpty",        {"C16"}, "Empty indexes block">>,
  <<"IndexColumn",       {"C16"}, "Column not found">>,
  <<"IndexSettings",     {"C16"}, "Invalid indexes setting">>,
  <<"UniqueTwice",       {"C16"}, "Duplicate unique key">>,
  <<"IndexTwice",        {"C16"}, "Duplicate index key">>,
  <<"ArgCount",          {"C17"}, "Invalid data type arguments">>,
  <<"ArgValue",          {"C17"}, "Invalid argument value">>,
  <<"DefaultValue",      {"C18"}, "Invalid default value">>,
  <<"DefaultRange",      {"C18"}, "Data type exceeded">>,
  <<"DefaultNull",       {"C18"}, "Default null in non-nullable">>,
  <<"EnumSchema",        {"C18"}, "Schema not found">>,
  <<"EnumMissing",       {"C18"}, "Enum not found">>,
  <<"EnumValueMissing",  {"C18"}, "Enum value not found">>,
  <<"EnumName",          {"C18"}, "Invalid enum">>,
  <<"GroupItemMissing",  {"C19"}, "Table not found">>,
  <<"RefSchema",         {"C19"}, "Schema not found">>,
  <<"RefTable",          {"C19"}, "Table not found">>,
  <<"RefColumn",         {"C19"}, "Column not found">>,
  <<"RefArity",          {"C20"}, "Mismatched composite foreign key">>,
  <<"RefType",           {"C20"}, "Mismatched foreign key type">>,
  <<"RefKey",            {"C21"}, "Invalid foreign key">>,
  <<"RefConflict",       {"C22"}, "Conflict relation">> >>
FaultKinds == { FaultTable[k][1] : k \in 1..Len(FaultTable) }
FaultRow == [f \in FaultKinds |-> CHOOSE k \in 1..Len(FaultTable) : FaultTable[k][1] = f]
PropsOf(f) == FaultTable[FaultRow[f]][2]
MessageOf(f) == FaultTable[FaultRow[f]][3]
KindsOf(p) == { f \in FaultKinds : p \in PropsOf(f) }

(* The kinds a message may stand for.                                      *)
Says(msg, f) == LET m == MessageOf(f)
                    n == Len(m)
                IN At(msg, 1, m) /\ Ch(msg, n + 1) \in {"", ":"}
KindsSaid(msg) == { f \in FaultKinds : Says(msg, f) }
=============================================================================
