------------------------------ MODULE Analysis ------------------------------
(* The semantic rules of a document, declaration by declaration.  A fault  *)
(* is [k, r, w, sure]: its kind, the range of the text that is at fault    *)
(* (<<first, last>> as in a node's sp), the names its message has to       *)
(* mention in this order, and whether a checker has to reject for it       *)
(* (TRUE) or merely may (FALSE: the rule as documented leaves it open).    *)
(* no: ranges inside r that are not to blame (another end, a column that   *)
(* exists, another setting ...): an error must not point into one of them. *)
EXTENDS Rules

Fault(k, sp, w) == [k |-> k, r |-> sp, w |-> w, sure |-> TRUE, no |-> {}]
Maybe(k, sp, w) == [k |-> k, r |-> sp, w |-> w, sure |-> FALSE, no |-> {}]
NotIn(faults, no) == { [f EXCEPT !.no = no] : f \in faults }
FaultIf(c, k, sp, w) == IF c THEN {Fault(k, sp, w)} ELSE {}
MaybeIf(c, k, sp, w) == IF c THEN {Maybe(k, sp, w)} ELSE {}
Range(s) == { s[k] : k \in 1..Len(s) }
SpansOf(s) == { s[k].sp : k \in 1..Len(s) }
OfKind(doc, k) == SelectSeq(doc, LAMBDA d : d.k = k)

(* positions of s whose element, seen through F, occurred before           *)
Repeats(s, F(_)) == { k \in 1..Len(s) : \E m \in 1..(k - 1) : F(s[m]) = F(s[k]) }

(* ---------------------------- what is declared ------------------------- *)
SchemaName(opt) == IF opt = <<>> THEN Public ELSE opt[1].name
IdOf(d) == <<SchemaName(d.ident.schema), d.ident.name.name>>
TableIds(doc) == { IdOf(doc[k]) : k \in { k \in 1..Len(doc) : doc[k].k = "table" } }
EnumIds(doc) == { IdOf(doc[k]) : k \in { k \in 1..Len(doc) : doc[k].k = "enum" } }
Schemas(doc) == { id[1] : id \in TableIds(doc) \cup EnumIds(doc) }
FirstWith(doc, kind, id) ==
  doc[CHOOSE k \in 1..Len(doc) :
        /\ doc[k].k = kind /\ IdOf(doc[k]) = id
        /\ \A m \in 1..(k - 1) : ~(doc[m].k = kind /\ IdOf(doc[m]) = id)]
TableOf(doc, id) == FirstWith(doc, "table", id)
EnumOf(doc, id) == FirstWith(doc, "enum", id)

(* the tables an alias stands for (one, in a document without faults)      *)
AliasOf(doc, a) ==
  { IdOf(doc[k]) : k \in { k \in 1..Len(doc) : /\ doc[k].k = "table"
                                                /\ doc[k].alias # <<>> /\ doc[k].alias[1].name = a } }
(* the table a name stands for: an alias is only meant by an unqualified name *)
Resolve(doc, schema, name) ==
  IF schema # <<>> THEN <<schema[1].name, name>>
  ELSE LET A == AliasOf(doc, name) IN IF A = {} THEN <<Public, name>> ELSE CHOOSE id \in A : TRUE

(* -------------------------------- settings ----------------------------- *)
KeyTwice(attrs) ==
  { Fault("KeyTwice", attrs[k].sp, <<>>) : k \in Repeats(attrs, LAMBDA a : a.key.name) }
KeyTwiceIn(set) == IF set = <<>> THEN {} ELSE KeyTwice(set[1].items)
Attrs(c) == IF c.set = <<>> THEN <<>> ELSE PlainAttrs(c.set[1].items)

(* -------------------------------- project ------------------------------ *)
ProjectFaults(d) ==
  { Fault("PropTwice", d.props[k].sp, <<>>) : k \in Repeats(d.props, LAMBDA x : x.key.name) }
DocumentFaults(doc, whole) ==
  LET n == Len(OfKind(doc, "project"))
  IN FaultIf(n = 0, "ProjectMissing", whole, <<>>) \cup FaultIf(n > 1, "ProjectTwice", whole, <<>>)

(* --------------------------------- enums ------------------------------- *)
EnumFaults(doc, i) ==
  LET d == doc[i]
  IN NotIn(FaultIf(\E m \in 1..(i - 1) : doc[m].k = "enum" /\ IdOf(doc[m]) = IdOf(d), "EnumTwice", d.sp, <<>>), SpansOf(d.vals))
     \cup UNION { NotIn({Fault("EnumValueTwice", d.vals[k].sp, <<>>)}, SpansOf(d.vals[k].set)) : k \in Repeats(d.vals, LAMBDA v : v.val.name) }
     \cup UNION { KeyTwiceIn(d.vals[k].set) : k \in 1..Len(d.vals) }

(* ------------------------------ table groups --------------------------- *)
ItemId(doc, x) == Resolve(doc, x.schema, x.name.name)
GroupFaults(doc, i) ==
  LET d == doc[i]
  IN NotIn(FaultIf(\E m \in 1..(i - 1) : doc[m].k = "group" /\ doc[m].name.name = d.name.name, "GroupTwice", d.sp, <<>>),
           SpansOf(d.items) \cup SpansOf(d.set))
     \cup { Fault("GroupItemTwice", d.items[k].sp, <<>>) : k \in Repeats(d.items, LAMBDA x : ItemId(doc, x)) }
     \cup { Fault("GroupItemMissing", d.items[k].sp, <<>>) :
              k \in { k \in 1..Len(d.items) : ItemId(doc, d.items[k]) \notin TableIds(doc) } }
     \cup KeyTwiceIn(d.set)

(* ------------------------------ keys of a table ------------------------ *)
IsPk(c) == HasKey(Attrs(c), PkKeys)
IsUnique(c) == HasKey(Attrs(c), {"unique"})
Nullness(c) == LET a == LastOf(Attrs(c), NullKeys) IN IF a = <<>> THEN "" ELSE a[1].key.name
Defs(d) == IF d.idx = <<>> THEN <<>> ELSE d.idx[1].defs
DefAttrs(x) == IF x.set = <<>> THEN <<>> ELSE x.set[1].items
DefPk(x) == HasKey(DefAttrs(x), {"pk"})
DefUnique(x) == HasKey(DefAttrs(x), {"unique"})
DefType(x) == TextOf(LastVal(DefAttrs(x), {"type"}))
Truth(b) == IF b THEN 1 ELSE 0

(* the settings of a column that have none of these keys                   *)
Besides(c, keys) ==
  IF c.set = <<>> THEN {}
  ELSE { a.sp : a \in { a \in Range(c.set[1].items) : a.inline \/ a.key.name \notin keys } }
ColumnKeyFaults(d) ==
  UNION { LET c == d.cols[k] IN
            NotIn(FaultIf(IsPk(c) /\ \E m \in 1..(k - 1) : IsPk(d.cols[m]), "PkTwice", c.sp, <<>>),
                  {c.type.sp} \cup Besides(c, PkKeys))
            \cup NotIn(FaultIf(IsPk(c) /\ Nullness(c) = "null", "PkNull", c.sp, <<>>)
                       \cup MaybeIf(IsPk(c) /\ HasKey(Attrs(c), {"null"}), "PkNull", c.sp, <<>>),
                       {c.type.sp} \cup Besides(c, PkKeys \cup NullKeys))
            \cup NotIn(FaultIf(IsPk(c) /\ c.type.arr # <<>>, "PkArray", c.sp, <<>>), Besides(c, PkKeys))
            \cup NotIn(FaultIf(HasKey(Attrs(c), {"null"}) /\ HasKey(Attrs(c), {"not null"}), "NullAndNotNull", c.sp, <<>>),
                       {c.name.sp, c.type.sp} \cup Besides(c, NullKeys))
          : k \in 1..Len(d.cols) }

(* Members of an index: columns by name, expressions by their text.        *)
Member(c) == <<c.expr, c.name>>
Members(x) == Map(x.cols, Member)
SameRaw(x, y) == /\ Len(x.cols) = Len(y.cols)
                 /\ \A k \in 1..Len(x.cols) : Member(x.cols[k]) = Member(y.cols[k])
                                              /\ (x.cols[k].expr => x.cols[k].raw = y.cols[k].raw)
RawSet(x) == { IF x.cols[k].expr THEN <<TRUE, x.cols[k].raw>> ELSE <<FALSE, x.cols[k].name>> : k \in 1..Len(x.cols) }

IndexFaults(d) ==
  LET defs == Defs(d)
      names == { d.cols[k].name.name : k \in 1..Len(d.cols) }
      uniqueCols == { {<<FALSE, d.cols[k].name.name>>} : k \in { k \in 1..Len(d.cols) : IsUnique(d.cols[k]) } }
      pkCol == \E k \in 1..Len(d.cols) : IsPk(d.cols[k])
      one(k) ==
        LET x == defs[k]
            S == Range(Members(x))
            earlier == { m \in 1..(k - 1) : DefUnique(defs[m]) }
            raws == uniqueCols \cup { RawSet(defs[m]) : m \in earlier }
            sets == uniqueCols \cup { Range(Members(defs[m])) : m \in earlier }
            same(m) == SameRaw(x, defs[m])
            alike(m) == Members(x) = Members(defs[m])
            both(m) == \/ x.set = <<>> /\ defs[m].set = <<>>
                       \/ DefType(x) # <<>> /\ DefType(x) = DefType(defs[m])
        IN FaultIf(x.cols = <<>>, "IndexEmpty", d.idx[1].sp, <<>>)
           \cup NotIn(FaultIf(\E c \in 1..Len(x.cols) : ~x.cols[c].expr /\ x.cols[c].name \notin names,
                              "IndexColumn", x.sp, <<>>),
                      { c.sp : c \in { c \in Range(x.cols) : c.expr \/ c.name \in names } } \cup SpansOf(x.set))
           \cup NotIn(FaultIf(Truth(DefPk(x)) + Truth(DefUnique(x)) + Truth(DefType(x) # <<>>) > 1,
                              "IndexSettings", x.sp, <<>>), SpansOf(x.cols))
           \cup FaultIf(DefPk(x) /\ (pkCol \/ \E m \in 1..(k - 1) : DefPk(defs[m])), "PkTwice", x.sp, <<>>)
           \cup FaultIf(DefUnique(x) /\ RawSet(x) \in raws, "UniqueTwice", x.sp, <<>>)
           \cup MaybeIf(DefUnique(x) /\ \E T \in sets : S \subseteq T, "UniqueTwice", x.sp, <<>>)
           \cup FaultIf(\E m \in 1..(k - 1) : same(m) /\ both(m), "IndexTwice", x.sp, <<>>)
           \cup MaybeIf(\E m \in 1..(k - 1) : alike(m) /\ (both(m) \/ x.set = <<>>), "IndexTwice", x.sp, <<>>)
           \cup UNION { MaybeIf(DefPk(x) /\ ~x.cols[c].expr /\ \E q \in 1..Len(d.cols) :
                                  d.cols[q].name.name = x.cols[c].name /\ HasKey(Attrs(d.cols[q]), {"null"}),
                                "PkNull", d.sp, <<>>) : c \in 1..Len(x.cols) }
           \cup UNION { MaybeIf(DefPk(x) /\ ~x.cols[c].expr /\ \E q \in 1..Len(d.cols) :
                                  d.cols[q].name.name = x.cols[c].name /\ d.cols[q].type.arr # <<>>,
                                "PkArray", d.sp, <<>>) : c \in 1..Len(x.cols) }
           \cup KeyTwiceIn(x.set)
  IN UNION { one(k) : k \in 1..Len(defs) }

(* ------------------------------ column types --------------------------- *)
IsBuiltin(ty) == ty.name \in TypeNames
AllInts(args) == \A k \in 1..Len(args) : args[k].t = "int"
TypeFaults(c) ==
  LET ty == c.type
      want == ArgCount(Builtin[ty.name])
  IN IF IsBuiltin(ty)
     THEN IF ty.args = <<>> THEN {}
          ELSE NotIn(FaultIf(Len(ty.args) # want, "ArgCount", c.sp, <<ty.name, ToString(want)>>)
                     \cup FaultIf(~AllInts(ty.args), "ArgValue", c.sp, <<>>), {c.name.sp} \cup SpansOf(c.set))
     ELSE {}

(* The enum a type that is not built in refers to.                         *)
EnumId(ty) == <<IF ty.schema = <<>> THEN Public ELSE ty.schema[1], ty.base>>
EnumValues_(doc, id) == { v.val.name : v \in Range(EnumOf(doc, id).vals) }

(* The number of characters of a literal: units less the second halves of  *)
(* surrogate pairs (low: their positions in the text).                     *)
CharCount(v, low) == Len(v.v) - Cardinality({ k \in Range(low) : v.sp[1] < k /\ k <= v.sp[2] })

DefaultOf(c) == LastVal(Attrs(c), {"default"})
DefaultFaults(doc, c, low) ==
  IF DefaultOf(c) = <<>> THEN {}
  ELSE
  LET v == DefaultOf(c)[1]
      ty == c.type
      type == IF IsBuiltin(ty) THEN Builtin[ty.name] ELSE "Enum"
      id == EnumId(ty)
      len == ToString(CharCount(v, low))
      cap == IF ty.args # <<>> /\ ty.args[1].t = "int" THEN ty.args[1].v ELSE ""
      wrong == /\ v.t = "str" /\ cap # ""
               /\ \/ type \in FixedLength /\ len # cap
                  \/ type \in MaxLength /\ ~NumLeq(len, cap)
      big == /\ v.t = "int"
             /\ \/ type = "SmallInt" /\ ~NumLeq(v.v, MaxI16)
                \/ type = "Integer" /\ ~NumLeq(v.v, MaxI32)
      lookup == type = "Enum" /\ v.t \notin {"null", "expr"}
      others == {c.name.sp} \cup Besides(c, {"default"})
  IN NotIn(FaultIf(wrong, "DefaultValue", c.sp, <<v.v, ty.raw>>)
           \cup FaultIf(v.t = "bool" /\ type # "Bool", "DefaultValue", c.sp, <<v.v, ty.raw>>)
           \cup FaultIf(big, "DefaultRange", c.sp, <<ty.raw>>), others \cup {c.type.sp})
     \cup NotIn(FaultIf(v.t = "null" /\ Nullness(c) # "null", "DefaultNull", c.sp, <<>>),
                {c.name.sp, c.type.sp} \cup Besides(c, NullKeys \cup {"default"}))
     \cup IF ~lookup THEN {}
          ELSE IF id[1] \notin Schemas(doc) THEN NotIn({Fault("EnumSchema", c.sp, <<>>)}, others)
          ELSE IF id \notin EnumIds(doc) THEN NotIn({Fault("EnumMissing", c.sp, <<>>)}, others)
          ELSE NotIn(FaultIf(v.v \notin EnumValues_(doc, id), "EnumValueMissing", c.sp, <<>>), others \cup {c.type.sp})

TableFaults(doc, i, low) ==
  LET d == doc[i]
      name(c) == c.name.name
      inside == SpansOf(d.cols) \cup SpansOf(d.idx) \cup SpansOf(d.set)
  IN NotIn(FaultIf(\E m \in 1..(i - 1) : doc[m].k = "table" /\ IdOf(doc[m]) = IdOf(d), "TableTwice", d.sp, <<>>),
           inside \cup SpansOf(d.alias))
     \cup NotIn(FaultIf(d.alias # <<>> /\ \E m \in 1..(i - 1) : doc[m].k = "table" /\ doc[m].alias # <<>>
                                                           /\ doc[m].alias[1].name = d.alias[1].name,
                        "AliasTwice", d.sp, <<>>), inside \cup {d.ident.sp})
     \cup UNION { NotIn({Fault("ColumnTwice", d.cols[k].sp, <<>>)}, {d.cols[k].type.sp} \cup SpansOf(d.cols[k].set))
                  : k \in Repeats(d.cols, name) }
     \cup KeyTwiceIn(d.set)
     \cup UNION { KeyTwice(Attrs(d.cols[k])) \cup TypeFaults(d.cols[k]) \cup DefaultFaults(doc, d.cols[k], low)
                  : k \in 1..Len(d.cols) }
     \cup ColumnKeyFaults(d)
     \cup IndexFaults(d)

(* ----------------------------- relationships --------------------------- *)
(* All relationships with both ends resolved: [l, r, rel, sp, ...].        *)
End(doc, e) == [id |-> Resolve(doc, e.schema, e.table.name), schema |-> e.schema,
                cols |-> Map(e.cols, NameOf), set |-> Range(Map(e.cols, NameOf)),
                at |-> {e.sp}, path |-> Append(e.schema, e.table), names |-> e.cols]
DeclRef(doc, d) == [sp |-> d.sp, rel |-> d.rel, l |-> End(doc, d.lhs), r |-> End(doc, d.rhs), set |-> d.set]
InlineRef(doc, d, c, x) ==
  [sp |-> x.sp, rel |-> x.rel, set |-> <<>>,
   l |-> [id |-> IdOf(d), schema |-> d.ident.schema, cols |-> <<c.name.name>>, set |-> {c.name.name},
          at |-> {}, path |-> <<>>, names |-> <<>>],
   r |-> End(doc, x.rhs)]
ColRefs(c) == IF c.set = <<>> THEN <<>> ELSE InlineRefs(c.set[1].items)
RefsOf(doc, i) ==
  LET d == doc[i] IN
  CASE d.k = "ref" -> <<DeclRef(doc, d)>>
    [] d.k = "table" -> Cat(Map(d.cols, LAMBDA c : Map(ColRefs(c), LAMBDA x : InlineRef(doc, d, c, x))))
    [] OTHER -> <<>>
AllRefs(doc) == Cat([i \in 1..Len(doc) |-> RefsOf(doc, i)])

HasCol(t, n) == \E k \in 1..Len(t.cols) : t.cols[k].name.name = n
ColOf(t, n) == t.cols[CHOOSE k \in 1..Len(t.cols) :
                         t.cols[k].name.name = n /\ \A m \in 1..(k - 1) : t.cols[m].name.name # n]

(* o: the other end                                                        *)
EndFaults(doc, x, e, o) ==
  LET beside == o.at \cup SpansOf(x.set) IN
  IF e.id \in TableIds(doc)
  THEN NotIn(FaultIf(\E n \in e.set : ~HasCol(TableOf(doc, e.id), n), "RefColumn", x.sp, <<>>),
             beside \cup SpansOf(e.path) \cup { n.sp : n \in { n \in Range(e.names) : HasCol(TableOf(doc, e.id), n.name) } })
  ELSE IF e.id[1] \in Schemas(doc)
  THEN NotIn({Fault("RefTable", x.sp, <<>>)}, beside \cup SpansOf(e.schema) \cup SpansOf(e.names))
  ELSE NotIn({Fault("RefSchema", x.sp, <<>>)},
             beside \cup SpansOf(e.names) \cup (IF e.schema = <<>> THEN {} ELSE {e.path[2].sp}))
Resolves(doc, e) == e.id \in TableIds(doc) /\ \A n \in e.set : HasCol(TableOf(doc, e.id), n)

(* Equal types: one built-in type under any name, or one enum.             *)
Canonical(ty) == IF IsBuiltin(ty) THEN <<"", Builtin[ty.name]>> ELSE EnumId(ty)
SameType(a, b) == Canonical(a) = Canonical(b) /\ CVals(a.args) = CVals(b.args) /\ a.arr = b.arr

TypePairFaults(doc, x) ==
  UNION { LET a == ColOf(TableOf(doc, x.l.id), x.l.cols[k])
              b == ColOf(TableOf(doc, x.r.id), x.r.cols[k])
          IN NotIn(FaultIf(~SameType(a.type, b.type), "RefType", x.sp,
                           <<x.l.cols[k], a.type.raw, x.r.cols[k], b.type.raw>>), SpansOf(x.set))
        : k \in 1..Len(x.l.cols) }

(* A column set is a key.  Repeating a column, in one end or in an index,  *)
(* is not a case the rules speak about: then being a key is left open.     *)
IndexKey(t, S) == \E x \in Range(Defs(t)) : /\ (DefPk(x) \/ DefUnique(x))
                                             /\ Range(Members(x)) = { <<FALSE, n>> : n \in S }
ColumnKey(t, S) == Cardinality(S) = 1 /\ \E n \in S : IsPk(ColOf(t, n)) \/ IsUnique(ColOf(t, n))
Key_(doc, e) == LET t == TableOf(doc, e.id) IN IndexKey(t, e.set) \/ ColumnKey(t, e.set)
(* if the end repeats a column: an index that, disregarding expressions,   *)
(* covers the set                                                          *)
LooseKey(doc, e) ==
  LET t == TableOf(doc, e.id)
  IN \/ Key_(doc, e)
     \/ /\ Len(e.cols) # Cardinality(e.set)
        /\ \E x \in Range(Defs(t)) : /\ (DefPk(x) \/ DefUnique(x))
                                       /\ { c.name : c \in { c \in Range(x.cols) : ~c.expr } } = e.set
StrictKey(doc, e) ==
  LET t == TableOf(doc, e.id)
  IN IF Len(e.cols) = 1 THEN ColumnKey(t, e.set) \/ \E x \in Range(Defs(t)) :
                               /\ (DefPk(x) \/ DefUnique(x))
                               /\ Members(x) = <<<<FALSE, e.cols[1]>>>>
     ELSE \E x \in Range(Defs(t)) : /\ (DefPk(x) \/ DefUnique(x))
                                    /\ Len(x.cols) = Len(e.cols)
                                    /\ Range(Members(x)) = { <<FALSE, n>> : n \in e.set }
KeyRule(rel, l, r) ==
  CASE rel = "<" -> l [] rel = ">" -> r [] rel = "-" -> l \/ r [] rel = "<>" -> l /\ r

KeyFaults(doc, x) ==
  LET ok == KeyRule(x.rel, LooseKey(doc, x.l), LooseKey(doc, x.r))
      sure == KeyRule(x.rel, StrictKey(doc, x.l), StrictKey(doc, x.r))
  IN NotIn(FaultIf(~ok, "RefKey", x.sp, <<>>) \cup MaybeIf(~sure, "RefKey", x.sp, <<>>),
           SpansOf(x.set) \cup (CASE x.rel = "<" -> x.r.at [] x.rel = ">" -> x.l.at [] OTHER -> {}))

(* Two relationships (at positions a, b of refs) that exclude each other.  *)
Side(e) == <<e.id, e.set>>
Many(x) == CASE x.rel = ">" -> {Side(x.l)} [] x.rel = "<" -> {Side(x.r)} [] OTHER -> {}
Sides(x) == {Side(x.l), Side(x.r)}
Conflict(x, y) == \/ x.rel \in {"-", "<>"} /\ y.rel = x.rel /\ Sides(x) = Sides(y)
                  \/ Many(x) # {} /\ Many(x) = Many(y)

RefFaults(doc, i) ==
  LET own == RefsOf(doc, i)
      all == AllRefs(doc)
      one(x) ==
        EndFaults(doc, x, x.l, x.r) \cup EndFaults(doc, x, x.r, x.l)
        \cup (IF x.set = <<>> THEN {} ELSE KeyTwice(x.set[1].items))
        \cup (IF Len(x.l.cols) # Len(x.r.cols) THEN NotIn({Fault("RefArity", x.sp, <<>>)}, SpansOf(x.set))
              ELSE IF Resolves(doc, x.l) /\ Resolves(doc, x.r)
                   THEN TypePairFaults(doc, x) \cup KeyFaults(doc, x) ELSE {})
        \cup NotIn(FaultIf(\E y \in Range(all) : y.sp # x.sp /\ Conflict(x, y), "RefConflict", x.sp, <<>>), SpansOf(x.set))
  IN UNION { one(own[k]) : k \in 1..Len(own) }

(* All faults of declaration i.                                            *)
DeclFaults(doc, i, low) ==
  LET d == doc[i] IN
  CASE d.k = "project" -> ProjectFaults(d)
    [] d.k = "enum"    -> EnumFaults(doc, i)
    [] d.k = "group"   -> GroupFaults(doc, i)
    [] d.k = "table"   -> TableFaults(doc, i, low) \cup RefFaults(doc, i)
    [] d.k = "ref"     -> RefFaults(doc, i)
    [] d.k = "note"    -> {}
=============================================================================
