-------------------------------- MODULE Views -------------------------------
(* Parts of a declaration's content that the properties C03 .. C07 are     *)
(* about.  They apply alike to Content of a node and to the content that   *)
(* was observed.                                                           *)
EXTENDS Analysis

Names(attrs) == Map(attrs, LAMBDA a : a.k)
SetNames(set) == Map(set, Names)
IdentOf(r) == r.schema \o <<r.table>> \o r.cols

(* C03: the declaration, its names and its members *)
Parts(d) ==
  CASE d.k = "table" ->
         <<"table", d.schema, d.name, d.alias, d.note, Map(d.cols, LAMBDA c : c.name),
           Map(d.idx, LAMBDA x : Map(x, LAMBDA def : def.cols))>>
    [] d.k = "enum" -> <<"enum", d.schema, d.name, Map(d.vals, LAMBDA v : v.v)>>
    [] d.k = "ref" -> <<"ref", d.name>>
    [] d.k = "group" -> <<"group", d.name, d.note, d.items>>
    [] d.k = "project" -> <<"project", d.name, d.note, Map(d.props, LAMBDA x : x.k)>>
    [] d.k = "note" -> <<"note", d.val>>

(* C04: settings, with their meaning *)
NoRefs(set) == Map(set, LAMBDA s : <<s.attrs, s.pk, s.uq, s.null, s.inc, s.note, s.def, Len(s.refs)>>)
Settings_(d) ==
  CASE d.k = "table" -> <<d.set, Map(d.cols, LAMBDA c : NoRefs(c.set)),
                          Map(d.idx, LAMBDA x : Map(x, LAMBDA def : def.set))>>
    [] d.k = "enum" -> Map(d.vals, LAMBDA v : v.set)
    [] d.k = "ref" -> d.set
    [] d.k = "group" -> d.set
    [] d.k = "project" -> <<d.db, d.props>>
    [] d.k = "note" -> <<>>

(* C05: all names and values, wherever they stand *)
AttrWords(attrs) == Cat(Map(attrs, LAMBDA a : <<<<"key", a.k>>>> \o Map(a.v, LAMBDA v : <<v.t, v.v>>)))
SetWords(set) == Cat(Map(set, AttrWords))
Id(n) == <<"id", n>>
Ids(s) == Map(s, Id)
RefWords(r) == Ids(IdentOf(r))
Vals(s) == Map(s, LAMBDA v : <<v.t, v.v>>)
Words(d) ==
  CASE d.k = "table" ->
         Ids(d.schema) \o Ids(<<d.name>>) \o Ids(d.alias) \o Vals(d.note) \o SetWords(d.set)
         \o Cat(Map(d.cols, LAMBDA c : <<Id(c.name)>> \o Vals(c.type.args)
                 \o Cat(Map(c.set, LAMBDA s : AttrWords(s.attrs) \o Cat(Map(s.refs, LAMBDA r : RefWords(r.rhs)))
                                              \o Ids(s.note) \o Vals(s.def)))))
         \o Cat(Map(d.idx, LAMBDA x : Cat(Map(x, LAMBDA def : Map(def.cols, LAMBDA c : <<c.t, c.v>>)
                 \o Cat(Map(def.set, LAMBDA s : AttrWords(s.attrs) \o Ids(s.name) \o Ids(s.note)))))))
    [] d.k = "enum" ->
         Ids(d.schema) \o Ids(<<d.name>>)
         \o Cat(Map(d.vals, LAMBDA v : <<Id(v.v)>> \o Cat(Map(v.set, LAMBDA s : AttrWords(s.attrs) \o Ids(s.note)))))
    [] d.k = "ref" -> Ids(d.name) \o RefWords(d.lhs) \o RefWords(d.rhs)
                      \o Cat(Map(d.set, LAMBDA s : AttrWords(s.attrs)))
    [] d.k = "group" -> Ids(<<d.name>>) \o Vals(d.note) \o SetWords(d.set)
                        \o Cat(Map(d.items, LAMBDA i : Ids(i.schema) \o <<Id(i.name)>>))
    [] d.k = "project" -> Ids(<<d.name>>) \o Vals(d.note) \o Cat(Map(d.props, LAMBDA x : <<<<"key", x.k>>, <<x.v.t, x.v.v>>>>))
    [] d.k = "note" -> Vals(<<d.val>>)
Bag(s) == [x \in Range(s) |-> Cardinality({ k \in 1..Len(s) : s[k] = x })]

(* C06: column types *)
Types(d) == IF d.k = "table" THEN Map(d.cols, LAMBDA c : c.type) ELSE <<>>

(* C07: relationships *)
Refs_(d) ==
  CASE d.k = "ref" -> <<d.name, d.rel, d.lhs, d.rhs, d.set>>
    [] d.k = "table" -> Map(d.cols, LAMBDA c : <<c.name, Cat(Map(c.set, LAMBDA s : s.refs))>>)
    [] OTHER -> <<>>

View(p, d) ==
  <<d.k, CASE p = "C03" -> Parts(d)
           [] p = "C04" -> Settings_(d)
           [] p = "C05" -> Bag(Words(d))
           [] p = "C06" -> Types(d)
           [] p = "C07" -> Refs_(d)
           [] OTHER -> d>>

(* C09: content without the written form of types *)
NoRaw(d) == IF d.k # "table" THEN d
            ELSE [d EXCEPT !.cols = Map(@, LAMBDA c : [c EXCEPT !.type.raw = ""])]
=============================================================================
