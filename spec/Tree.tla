-------------------------------- MODULE Tree --------------------------------
(* What a user of the library sees of a tree, in two projections: its      *)
(* content (everything but positions) and its spans (every node's range    *)
(* and raw text in a fixed order, with the index of the parent node).      *)
EXTENDS Syntax

Map(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
NameOf(x) == x.name
CVal(v) == [t |-> v.t, v |-> v.v]
CVals(s) == Map(s, CVal)
CAttr(a) == [k |-> a.key.name, v |-> CVals(a.val)]
CAttrs(items) == Map(items, CAttr)
COptAttrs(set) == Map(set, LAMBDA s : CAttrs(s.items))
CNote(n) == Map(n, LAMBDA x : CVal(x.val))

(* The last setting with one of these keys, as a 0/1-sequence.             *)
LastOf(attrs, keys) ==
  LET S == { k \in 1..Len(attrs) : attrs[k].key.name \in keys }
  IN IF S = {} THEN <<>> ELSE <<attrs[CHOOSE k \in S : \A m \in S : m <= k]>>
LastVal(attrs, keys) == LET a == LastOf(attrs, keys) IN IF a = <<>> THEN <<>> ELSE a[1].val
HasKey(attrs, keys) == LastOf(attrs, keys) # <<>>
TextOf(vals) == Map(vals, LAMBDA v : v.v)

PlainAttrs(items) == SelectSeq(items, LAMBDA x : ~x.inline)
InlineRefs(items) == SelectSeq(items, LAMBDA x : x.inline)

PkKeys == {"pk", "primary key"}
NullKeys == {"null", "not null"}
CRefIdent(r) == [schema |-> Map(r.schema, NameOf), table |-> r.table.name, cols |-> Map(r.cols, NameOf)]
CInline(r) == [rel |-> r.rel, rhs |-> CRefIdent(r.rhs)]
CColSet(s) ==
  LET a == PlainAttrs(s.items)
      nul == LastOf(a, NullKeys)
  IN [attrs |-> CAttrs(a), pk |-> HasKey(a, PkKeys), uq |-> HasKey(a, {"unique"}),
      null |-> IF nul = <<>> THEN "" ELSE nul[1].key.name,
      inc |-> HasKey(a, {"increment"}),
      note |-> TextOf(LastVal(a, {"note"})), def |-> CVals(LastVal(a, {"default"})),
      refs |-> Map(InlineRefs(s.items), CInline)]
CType(ty) == [raw |-> ty.raw, name |-> ty.name, args |-> CVals(ty.args), arr |-> ty.arr]
CCol(c) == [name |-> c.name.name, type |-> CType(c.type), set |-> Map(c.set, CColSet)]

CIndexCol(c) == [t |-> IF c.expr THEN "expr" ELSE "col", v |-> c.name]
CIndexSet(s) ==
  LET a == s.items
  IN [attrs |-> CAttrs(a), pk |-> HasKey(a, {"pk"}), uq |-> HasKey(a, {"unique"}),
      type |-> TextOf(LastVal(a, {"type"})), name |-> TextOf(LastVal(a, {"name"})),
      note |-> TextOf(LastVal(a, {"note"}))]
CIndexDef(d) == [cols |-> Map(d.cols, CIndexCol), set |-> Map(d.set, CIndexSet)]

ActionOf(a, key) == LET v == LastVal(a, {key})
                    IN IF v # <<>> /\ v[1].t = "enum" THEN <<v[1].v>> ELSE <<>>
CRefSet(s) == [attrs |-> CAttrs(s.items), upd |-> ActionOf(s.items, "update"), del |-> ActionOf(s.items, "delete")]
CEnumVal(v) ==
  [v |-> v.val.name,
   set |-> Map(v.set, LAMBDA s : [attrs |-> CAttrs(s.items), note |-> TextOf(LastVal(s.items, {"note"}))])]

(* The last property 'database_type' that is a string.                     *)
DbType(props) ==
  LET S == { k \in 1..Len(props) : props[k].key.name = "database_type" /\ props[k].val.t = "str" }
  IN IF S = {} THEN <<>>
     ELSE LET v == props[CHOOSE k \in S : \A m \in S : m <= k].val.v
          IN <<IF v = "PostgreSQL" THEN "P" ELSE "U:" \o v>>

Content(d) ==
  CASE d.k = "table" ->
         [k |-> "table", schema |-> Map(d.ident.schema, NameOf), name |-> d.ident.name.name,
          alias |-> Map(d.alias, NameOf), set |-> COptAttrs(d.set), cols |-> Map(d.cols, CCol),
          note |-> CNote(d.note), idx |-> Map(d.idx, LAMBDA x : Map(x.defs, CIndexDef))]
    [] d.k = "enum" ->
         [k |-> "enum", schema |-> Map(d.ident.schema, NameOf), name |-> d.ident.name.name,
          vals |-> Map(d.vals, CEnumVal)]
    [] d.k = "ref" ->
         [k |-> "ref", name |-> Map(d.name, NameOf), rel |-> d.rel, lhs |-> CRefIdent(d.lhs),
          rhs |-> CRefIdent(d.rhs), set |-> Map(d.set, CRefSet)]
    [] d.k = "group" ->
         [k |-> "group", name |-> d.name.name, set |-> COptAttrs(d.set), note |-> CNote(d.note),
          items |-> Map(d.items, LAMBDA x : [schema |-> Map(x.schema, NameOf), name |-> x.name.name])]
    [] d.k = "project" ->
         [k |-> "project", name |-> d.name.name, note |-> CNote(d.note), db |-> DbType(d.props),
          props |-> Map(d.props, LAMBDA x : [k |-> x.key.name, v |-> CVal(x.val)])]
    [] d.k = "note" -> [k |-> "note", val |-> CVal(d.val)]

(* ----------------------------------------------------------------------- *)
(* Spans.  A list of [sp, raw, up]: raw is a 0/1-sequence, up the number of *)
(* entries between this one and its parent (0: the declaration itself).    *)
E1(x) == [sp |-> x.sp, raw |-> <<>>, up |-> 0]
ER(x) == [sp |-> x.sp, raw |-> <<x.raw>>, up |-> 0]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
(* Put children lists below a head entry: an entry without parent so far   *)
(* becomes a child of the head.                                            *)
Under(h, kids) ==
  LET c == Cat(kids)
  IN <<h>> \o [k \in 1..Len(c) |-> IF c[k].up = 0 THEN [c[k] EXCEPT !.up = k] ELSE c[k]]
Each(s, F(_)) == Cat(Map(s, F))
Leafs(s) == Map(s, ER)

SAttr(a) == Under(E1(a), <<Leafs(<<a.key>>), Leafs(a.val)>>)
SSettings(s) == Under(E1(s), <<Each(s.items, SAttr)>>)
SOptSettings(set) == Each(set, SSettings)
SRefIdent(r) == Under(E1(r), <<Leafs(r.schema), Leafs(<<r.table>>), Leafs(r.cols)>>)
SInline(r) == Under(E1(r), <<SRefIdent(r.rhs)>>)
SColSet(s) == Under(E1(s), <<Each(PlainAttrs(s.items), SAttr), Each(InlineRefs(s.items), SInline)>>)
SCol(c) == Under(E1(c), <<Leafs(<<c.name>>), Leafs(<<c.type>>), Each(c.set, SColSet)>>)
SNote(n) == Under(E1(n), <<Leafs(<<n.val>>)>>)
SIndexDef(d) == Under(E1(d), <<Leafs(d.cols), SOptSettings(d.set)>>)
SIndexes(x) == Under(E1(x), <<Each(x.defs, SIndexDef)>>)
SDeclIdent(d) == Under(E1(d), <<Leafs(d.schema), Leafs(<<d.name>>)>>)
SEnumVal(v) == Under(E1(v), <<Leafs(<<v.val>>), SOptSettings(v.set)>>)

Spans(d) ==
  CASE d.k = "table" ->
         Under(E1(d), <<SDeclIdent(d.ident), Leafs(d.alias), Each(d.cols, SCol), Each(d.note, SNote),
                        Each(d.idx, SIndexes), SOptSettings(d.set)>>)
    [] d.k = "enum" -> Under(E1(d), <<SDeclIdent(d.ident), Each(d.vals, SEnumVal)>>)
    [] d.k = "ref" -> Cat(<<Leafs(d.name), Under(E1(d), <<SRefIdent(d.lhs), SRefIdent(d.rhs), SOptSettings(d.set)>>)>>)
    [] d.k = "group" -> Under(E1(d), <<Leafs(<<d.name>>), Each(d.note, SNote), Each(d.items, SDeclIdent),
                                       SOptSettings(d.set)>>)
    [] d.k = "project" ->
         Under(E1(d), <<Leafs(<<d.name>>), Each(d.note, SNote),
                        Each(d.props, LAMBDA x : Under(E1(x), <<Leafs(<<x.key>>), Leafs(<<x.val>>)>>))>>)
    [] d.k = "note" -> SNote(d)

(* An observed span fits if it starts at the construct and ends after its  *)
(* last token, with at most blanks and comments after that.                *)
SpanFits(t, want, s, e) ==
  s = want[1] /\ (e = want[2] \/ (e > want[2] /\ e <= Skip(t, want[2] + 1) - 1))
=============================================================================
