------------------------------- MODULE Around -------------------------------
(* Faults in circumstances: small documents, each with one fault or none,  *)
(* and whatever else may stand around: settings, notes, aliases, further   *)
(* members and declarations, other names, forms and orders.  None of these *)
(* has anything to do with the fault, and none is to hide it or to bring   *)
(* one about, unless the rules say so.  A document comes about by adding   *)
(* some circumstances, one at a time, in their order below.                *)
EXTENDS Edits

CONSTANTS Narrow,             \* only circumstances close to the rule
          Mixed               \* each of them may be taken or left, one by one
VARIABLE rule                 \* the property the document was made for
avars == <<doc, focus, left, out, rule>>
(* focus: the number of the circumstance added last                        *)

P0 == Project(<<"database_type: 'PostgreSQL'">>)
Num(n) == Col(n, "int", <<>>)
Key(n) == Col(n, "int", <<"unique">>)
T_(id, cols, idx) == Tab(id, "", cols, idx)
V(x) == <<P0>> \o x
Two == << T_("t", << Key("a"), Key("b"), Num("c") >>, <<>>), T_("u", << Num("a"), Num("b"), Num("c") >>, <<>>) >>
Both == << Idx(<<"a", "b">>, <<"unique">>) >>
Comp == << T_("t", << Num("a"), Num("b"), Num("c") >>, Both), T_("u", << Num("a"), Num("b"), Num("c") >>, <<>>) >>
Other(t, s) == T_("u", << Col("a", t, s), Num("b") >>, <<>>)

(* ------------------------------- the faults ---------------------------- *)
Bases == [
  C12 |-> <<
    Two, <<P0, P0>> \o Two, Two \o <<P0, Project(<<>>)>>, << Project(<<"a: 1", "a: 1">>) >> \o Two, << Project(<<"a: 1", "b: 2", "a: 'x'">>) >> \o Two,
    << Project(<<"a: 1", "A: 1", "a b: 1", "ab: 1">>) >> \o Two, << Project(<<>>), Free("Note: 'n'") >>, <<P0>> >>,
  C13 |-> <<
    V(<< T_("t", << Num("a") >>, <<>>), T_("u", << Num("a") >>, <<>>), T_("t", << Num("a") >>, <<>>) >>),
    V(<< T_("t", << Num("a") >>, <<>>), T_("public.t", << Num("b") >>, <<>>) >>),
    V(<< T_("s.t", << Num("a") >>, <<>>), T_("t", << Num("a") >>, <<>>), T_("s.t", << Num("b") >>, <<>>) >>),
    V(<< Tab("t", "x", << Num("a") >>, <<>>), Tab("u", "x", << Num("a") >>, <<>>) >>),
    V(<< Tab("t", "x", << Num("a") >>, <<>>), Tab("s.t", "y", << Num("a") >>, <<>>), Tab("s.u", "x", << Num("a") >>, <<>>) >>),
    V(<< Enum("e", <<"v">>), Enum("f", <<"v">>), Enum("e", <<"w">>) >>), V(<< Enum("e", <<"v">>), Enum("public.e", <<"w">>) >>),
    V(<< Enum("e", <<"v", "w", "v">>) >>), V(<< Enum("s.e", <<"v", "v">>) >>),
    V(<< T_("t", << Num("a"), Num("a") >>, <<>>) >>), V(<< T_("t", << Num("a"), Num("b"), Col("a", "text", <<"unique">>) >>, <<>>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, <<>>), T_("u", << Num("b"), Col("c", "e", <<"null">>), Col("b", "bool", <<>>) >>, <<>>) >>),
    V(Two \o << Group("g", <<"t">>), Group("g", <<"u">>) >>), V(Two \o << Group("g", <<"t", "t">>) >>), V(Two \o << Group("g", <<"t", "u", "public.t">>) >>),
    V(<< Tab("t", "x", << Num("a") >>, <<>>), Group("g", <<"x", "t">>) >>), V(<< Tab("s.t", "y", << Num("a") >>, <<>>), Group("h", <<>>), Group("g", <<"s.t", "y">>) >>),
    V(<< Tab("t", "u", << Num("a"), Num("A") >>, <<>>), Tab("s.t", "x", << Num("a") >>, <<>>), Enum("t", <<"v", "V">>), Enum("s.t", <<"v">>), Group("t", <<"t", "s.t">>), Group("T", <<>>) >>) >>,
  C14 |-> <<
    V(<< [T_("t", << Num("a") >>, <<>>) EXCEPT !.set = <<"k: 1", "k: 2">>] >>), V(<< [T_("t", << Num("a") >>, <<>>) EXCEPT !.set = <<"k", "note: 'n'", "k">>] >>),
    V(Two \o << [Group("g", <<"t">>) EXCEPT !.set = <<"k: 1", "m", "k: 1">>] >>),
    V(<< T_("t", << Col("a", "int", <<"note: 'm'", "note: 'm'">>) >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "int", <<"unique", "k", "unique">>) >>, <<>>) >>),
    V(<< T_("t", << Col("a", "int", <<"pk", "pk">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Col("a", "int", <<"default: 1", "unique", "default: 2">>), Num("b") >>, <<>>) >>),
    V(<< Enum("e", <<"v", "w [note: 'm', k: 1, note: 'o']">>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<"k: 1", "k: 2">>), Idx(<<"b">>, <<>>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"b">>, <<>>), Idx(<<"a", "b">>, <<"unique", "name: 'x'", "unique">>) >>) >>),
    V(Two \o << Ref("u", <<"a">>, ">", "t", <<"a">>, <<"delete: cascade", "update: cascade", "delete: restrict">>) >>), V(Two \o << Ref("u", <<"b">>, ">", "t", <<"a">>, <<>>), Ref("u", <<"a">>, ">", "t", <<"a">>, <<"k", "k">>) >>),
    V(<< [T_("t", << Col("a", "int", <<"k", "K: 1", "ref: > u.a", "ref: > u.b">>), Num("b") >>, << Idx(<<"a">>, <<"k">>), Idx(<<"b">>, <<"k", "name: 'x'">>) >>) EXCEPT !.set = <<"k">>], T_("u", << Key("a"), Key("b") >>, <<>>) >>) >>,
  C15 |-> <<
    V(<< T_("t", << Col("a", "int", <<"pk">>), Num("b"), Col("c", "text", <<"pk">>) >>, <<>>) >>), V(<< T_("t", << Col("a", "int", <<"primary key">>), Col("b", "int", <<"pk">>) >>, <<>>) >>),
    V(<< T_("t", << Col("a", "int", <<"pk">>), Num("b") >>, << Idx(<<"b">>, <<"pk">>) >>) >>), V(<< T_("t", << Num("b"), Col("a", "int", <<"pk">>) >>, << Idx(<<"b">>, <<>>), Idx(<<"a", "b">>, <<"pk">>) >>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<"pk">>), Idx(<<"b">>, <<"pk">>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a", "b">>, <<"pk">>), Idx(<<"b">>, <<>>), Idx(<<"b", "a">>, <<"pk">>) >>) >>),
    V(<< T_("t", << Col("a", "int", <<"pk", "null">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "int", <<"null", "unique", "primary key">>) >>, <<>>) >>),
    V(<< T_("t", << Col("a", "int[]", <<"pk">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "varchar(5)[3]", <<"primary key">>) >>, <<>>) >>),
    V(<< T_("t", << Col("a", "int", <<"null", "not null">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "text", <<"not null", "unique", "null">>) >>, <<>>) >>),
    V(<< T_("t", << Num("b"), Col("a", "int", <<"pk", "not null">>), Col("c", "int[]", <<"null">>) >>, << Idx(<<"b">>, <<"unique">>) >>), T_("u", << Col("a", "int", <<"null">>), Num("b") >>, << Idx(<<"b", "c">>, <<"pk">>) >>) >>),
    V(<< T_("t", << Num("b"), Num("a") >>, << Idx(<<"b", "a">>, <<"pk">>) >>), T_("u", << Col("a", "int", <<"pk">>), Num("b") >>, <<>>) >>) >>,
  C16 |-> <<
    V(<< T_("t", << Num("a") >>, << Idx(<<"d">>, <<>>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<>>), Idx(<<"b", "d">>, <<"unique">>) >>), T_("u", << Num("d") >>, <<>>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<"pk", "unique">>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<"type: hash", "unique">>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"b">>, <<>>), Idx(<<"a">>, <<"pk", "type: btree">>) >>) >>),
    V(<< T_("t", << Key("a"), Num("b") >>, << Idx(<<"a">>, <<"unique">>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a", "b">>, <<"unique">>), Idx(<<"b", "a">>, <<"unique">>) >>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a", "`a`">>, <<"unique">>), Idx(<<"b">>, <<>>), Idx(<<"a", "`a`">>, <<"unique">>) >>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"`a`">>, <<"unique">>), Idx(<<"`a`">>, <<"unique">>) >>) >>),
    V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<>>), Idx(<<"b">>, <<>>), Idx(<<"a">>, <<>>) >>) >>), V(<< T_("t", << Num("a"), Num("b") >>, << Idx(<<"a", "b">>, <<"type: gin">>), Idx(<<"a", "b">>, <<"type: gin">>) >>) >>),
    V(<< T_("t", << Num("a"), Key("b") >>, << Idx(<<"a">>, <<>>), Idx(<<"a">>, <<"type: hash">>), Idx(<<"a">>, <<"type: btree">>), Idx(<<"a">>, <<"unique">>), Idx(<<"b">>, <<>>), Idx(<<"a", "b">>, <<>>), Idx(<<"b", "a">>, <<>>), Idx(<<"`a`", "`b`">>, <<"unique">>) >>),
         T_("u", << Num("a"), Num("b") >>, << Idx(<<"a">>, <<>>), Idx(<<"`b`">>, <<>>), Idx(<<"b">>, <<"pk">>) >>) >>) >>,
  C17 |-> <<
    V(<< T_("t", << Col("a", "varchar(5,6)", <<>>), Num("b") >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "int(5)", <<>>) >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "decimal(5)", <<>>) >>, <<>>) >>),
    V(<< T_("t", << Num("b"), Col("a", "numeric(5,6,7)", <<>>) >>, <<>>) >>), V(<< T_("t", << Col("a", "char('x')", <<>>), Num("b") >>, <<>>) >>), V(<< T_("t", << Col("a", "numeric(5,'x')", <<>>), Num("b") >>, <<>>) >>),
    V(<< T_("t", << Col("a", "time(1.5)", <<>>), Num("b") >>, <<>>) >>), V(<< T_("t", << Col("a", "bit(null)", <<>>), Num("b") >>, <<>>) >>), V(<< T_("t", << Col("a", "text(1)", <<>>), Num("b") >>, <<>>) >>),
    V(<< T_("t", << Col("a", "\"character varying(5, 6)\"", <<>>), Num("b") >>, <<>>) >>),
    V(<< T_("t", << Col("a", "varchar(5)", <<>>), Col("b", "decimal(5,6)", <<>>), Col("c", "timestamptz(3)", <<>>), Col("d", "varchar", <<>>), Col("f", "numeric", <<>>), Col("g", "bit(0)", <<>>) >>, <<>>) >>) >>,
  C18 |-> <<
    V(<< T_("t", << Col("a", "smallint", <<"default: 32768">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "int4", <<"default: 2147483648">>) >>, <<>>) >>),
    V(<< T_("t", << Col("a", "char(5)", <<"default: 'abcd'">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Num("b"), Col("a", "bit(3)", <<"default: '1010'">>) >>, <<>>) >>), V(<< T_("t", << Col("a", "varchar(3)", <<"default: 'abcd'">>), Num("b") >>, <<>>) >>),
    V(<< T_("t", << Col("a", "varbit(2)", <<"default: '101'">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Col("a", "text", <<"default: true">>), Num("b") >>, <<>>) >>), V(<< T_("t", << Col("a", "int", <<"default: false">>), Num("b") >>, <<>>) >>),
    V(<< T_("t", << Num("b"), Col("a", "int", <<"default: null">>) >>, <<>>) >>), V(<< T_("t", << Col("a", "e", <<"default: null">>), Num("b") >>, <<>>), Enum("e", <<"v">>) >>),
    V(<< Enum("e", <<"v", "w">>), Enum("s.e", <<"z">>), T_("t", << Col("a", "e", <<"default: z">>), Num("b") >>, <<>>) >>), V(<< Enum("e", <<"v", "w">>), T_("t", << Num("b"), Col("a", "e", <<"default: 'W'">>) >>, <<>>) >>),
    V(<< Enum("e", <<"v", "w">>), T_("t", << Num("b"), Col("a", "s.e", <<"default: v">>) >>, <<>>) >>), V(<< Enum("s.e", <<"v", "w">>), T_("t", << Num("b"), Col("a", "e", <<"default: v">>) >>, <<>>) >>), V(<< Enum("s.e", <<"v", "w">>), T_("t", << Num("b"), Col("a", "e", <<"default: 5">>) >>, <<>>) >>),
    V(<< Enum("s.e", <<"v", "w">>), T_("t", << Num("b"), Col("a", "s.f", <<"default: v">>) >>, <<>>) >>),
    V(<< Enum("s.e", <<"v", "w">>), Enum("e", <<"z">>), T_("t", << Col("a", "s.e", <<"default: v">>), Col("b", "e", <<"default: 'z'">>), Col("c", "smallint", <<"default: 32767">>), Col("d", "char(3)", <<"default: 'abc'">>), Col("f", "varchar(3)", <<"default: ''">>),
                                                           Col("g", "int", <<"null", "default: null">>), Col("h", "bool", <<"default: true">>), Col("i", "e", <<"default: `z()`">>), Col("j", "s.e", <<"null", "default: null">>) >>, <<>>) >>) >>,
  C19 |-> <<
    V(Two \o << Ref("u", <<"a">>, ">", "f", <<"a">>, <<>>) >>), V(Two \o << Ref("f", <<"a">>, ">", "t", <<"a">>, <<>>) >>), V(Two \o << Ref("u", <<"d">>, ">", "t", <<"a">>, <<>>) >>), V(Two \o << Ref("u", <<"a">>, ">", "t", <<"d">>, <<>>) >>),
    V(Two \o << Ref("u", <<"a">>, ">", "s.t", <<"a">>, <<>>) >>), V(Two \o << Ref("t", <<"a">>, "<", "s.u", <<"a">>, <<>>) >>),
    V(<< Tab("t", "x", << Key("a") >>, <<>>), T_("s.u", << Num("a") >>, <<>>), Ref("s.u", <<"a">>, ">", "s.x", <<"a">>, <<>>) >>), V(<< Tab("t", "x", << Key("a") >>, <<>>), T_("s.u", << Num("a") >>, <<>>), Ref("s.u", <<"a">>, ">", "public.x", <<"a">>, <<>>) >>),
    V(<< Tab("t", "x", << Key("a") >>, <<>>), T_("s.u", << Num("a") >>, <<>>), Ref("u", <<"a">>, ">", "x", <<"a">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "d">>, ">", "t", <<"a", "b">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "b">>, ">", "t", <<"b", "d">>, <<>>) >>),
    V(<< T_("t", << Key("b") >>, <<>>), T_("u", << Num("b"), Col("a", "int", <<"ref: > t.a">>) >>, <<>>) >>), V(<< T_("u", << Num("b"), Col("a", "int", <<"ref: > t.a">>) >>, <<>>) >>),
    V(Two \o << Group("g", <<"t", "f">>) >>), V(Two \o << Group("h", <<>>), Group("g", <<"s.t">>) >>), V(<< Tab("t", "x", << Num("a") >>, <<>>), Group("g", <<"s.x">>) >>), V(<< Tab("s.t", "y", << Num("a") >>, <<>>), Group("g", <<"t">>) >>),
    V(<< Ref("x", <<"a">>, "<", "y", <<"a">>, <<>>), Group("g", <<"y", "x", "public.u">>), Tab("t", "x", << Key("a"), Col("b", "int", <<"ref: > t.a">>) >>, <<>>), Tab("s.t", "y", << Num("a") >>, <<>>), T_("u", << Num("a") >>, <<>>), Ref("public.u", <<"a">>, ">", "public.t", <<"a">>, <<>>) >>) >>,
  C20 |-> <<
    V(Comp \o << Ref("u", <<"a", "b", "c">>, ">", "t", <<"a", "b">>, <<>>) >>), V(Comp \o << Ref("t", <<"a", "b">>, "<", "u", <<"a">>, <<>>) >>), V(Two \o << Ref("u", <<"a", "b">>, ">", "t", <<"a">>, <<>>) >>),
    V(<< T_("t", << Key("a") >>, <<>>), Other("text", <<>>), Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>) >>), V(<< T_("t", << Key("a") >>, <<>>), Other("int[]", <<>>), Ref("t", <<"a">>, "<", "u", <<"a">>, <<>>) >>), V(<< T_("t", << Key("a") >>, <<>>), Other("bigint", <<"ref: > t.a">>) >>),
    V(<< T_("t", << Col("a", "varchar(5)", <<"unique">>) >>, <<>>), Other("varchar(6)", <<>>), Ref("u", <<"a">>, "-", "t", <<"a">>, <<>>) >>), V(<< T_("t", << Col("a", "e", <<"unique">>) >>, <<>>), Other("s.e", <<>>), Enum("e", <<"v">>), Enum("s.e", <<"v">>), Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>) >>),
    V(<< T_("t", << Col("a", "int[2]", <<"unique">>) >>, <<>>), Other("int[3]", <<"unique">>), Ref("u", <<"a">>, "<>", "t", <<"a">>, <<>>) >>),
    V(<< T_("t", << Num("a"), Col("b", "text", <<>>) >>, Both), T_("u", << Num("a"), Col("b", "text", <<>>) >>, <<>>), Ref("u", <<"a", "b">>, ">", "t", <<"b", "a">>, <<>>) >>),
    V(<< T_("t", << Num("a"), Col("b", "varchar(5)", <<>>) >>, Both), T_("u", << Col("a", "int4", <<>>), Col("b", "\"character varying(5)\"", <<>>) >>, <<>>), Ref("u", <<"a", "b">>, ">", "t", <<"a", "b">>, <<>>), Ref("t", <<"b", "a">>, "-", "u", <<"b", "a">>, <<>>) >>) >>,
  C21 |-> <<
    V(Two \o << Ref("u", <<"a">>, ">", "t", <<"c">>, <<>>) >>), V(Two \o << Ref("t", <<"c">>, "<", "u", <<"a">>, <<>>) >>), V(Two \o << Ref("t", <<"a">>, ">", "u", <<"a">>, <<>>) >>), V(Two \o << Ref("t", <<"c">>, "-", "u", <<"a">>, <<>>) >>), V(Two \o << Ref("t", <<"a">>, "<>", "u", <<"a">>, <<>>) >>), V(Two \o << Ref("u", <<"a">>, "<>", "t", <<"a">>, <<>>) >>),
    V(Two \o << Ref("u", <<"a", "b">>, ">", "t", <<"a", "b">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "c">>, ">", "t", <<"a", "c">>, <<>>) >>), V(Comp \o << Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "b">>, "<", "t", <<"a", "b">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "b">>, "<>", "t", <<"a", "b">>, <<>>) >>),
    V(Comp \o << Ref("t", <<"a", "c">>, "-", "u", <<"a", "c">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "b", "c">>, ">", "t", <<"a", "b", "c">>, <<>>) >>),
    V(<< T_("t", << Num("a") >>, << Idx(<<"a">>, <<>>) >>), Other("int", <<"ref: > t.a">>) >>), V(<< T_("t", << Num("a") >>, << Idx(<<"a">>, <<"type: hash">>), Idx(<<"`a`">>, <<"unique">>) >>), Other("int", <<>>), Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>) >>),
    V(<< T_("t", << Num("a"), Num("b"), Col("c", "int", <<"pk">>) >>, << Idx(<<"a">>, <<"unique">>), Idx(<<"b", "a">>, <<"unique">>) >>), T_("u", << Num("a"), Key("b"), Col("c", "int", <<"ref: > t.a">>) >>, << Idx(<<"b", "a">>, <<"pk">>) >>),
         Ref("u", <<"a">>, ">", "t", <<"c">>, <<>>), Ref("t", <<"a", "b">>, "<", "u", <<"a", "c">>, <<>>), Ref("t", <<"a", "b">>, "<>", "u", <<"a", "b">>, <<>>), Ref("t", <<"b">>, "-", "u", <<"b">>, <<>>), Ref("t", <<"c">>, "<>", "u", <<"b">>, <<>>) >>) >>,
  C22 |-> <<
    V(Two \o << Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>), Ref("u", <<"a">>, ">", "t", <<"b">>, <<>>) >>), V(Two \o << Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>), Ref("t", <<"a">>, "<", "u", <<"a">>, <<>>) >>),
    V(Two \o << Ref("t", <<"a">>, "<", "u", <<"a">>, <<>>), Ref("t", <<"b">>, "<", "u", <<"a">>, <<>>) >>), V(Two \o << Ref("t", <<"a">>, "-", "u", <<"a">>, <<>>), Ref("u", <<"a">>, "-", "t", <<"a">>, <<>>) >>),
    V(<< T_("t", << Key("a") >>, <<>>), T_("u", << Key("a") >>, <<>>), Ref("t", <<"a">>, "<>", "u", <<"a">>, <<>>), Ref("u", <<"a">>, "<>", "t", <<"a">>, <<>>) >>),
    V(<< T_("t", << Key("a") >>, <<>>), Other("int", <<"ref: > t.a">>), Ref("t", <<"a">>, "<", "u", <<"a">>, <<>>) >>), V(<< Tab("t", "x", << Key("a") >>, <<>>), Other("int", <<"ref: > t.a">>), Ref("x", <<"a">>, "<", "public.u", <<"a">>, <<>>) >>),
    V(Comp \o << Ref("u", <<"a", "b">>, ">", "t", <<"a", "b">>, <<>>), Ref("u", <<"b", "a">>, ">", "t", <<"b", "a">>, <<>>) >>), V(Comp \o << Ref("u", <<"a", "b">>, ">", "t", <<"a", "b">>, <<>>), Ref("t", <<"a", "b">>, "<", "u", <<"b", "a">>, <<>>) >>),
    V(Comp \o << Ref("t", <<"a", "b">>, "-", "u", <<"a", "b">>, <<>>), Ref("u", <<"b", "a">>, "-", "t", <<"b", "a">>, <<>>) >>),
    V(<< T_("t", << Key("a"), Key("b"), Num("c") >>, Both), T_("u", << Key("a"), Key("b"), Col("c", "int", <<"ref: > t.a">>) >>, <<>>), T_("s.u", << Num("c") >>, <<>>), Ref("u", <<"a">>, ">", "t", <<"a">>, <<>>), Ref("u", <<"a">>, "<", "t", <<"a">>, <<>>), Ref("u", <<"a">>, "-", "t", <<"a">>, <<>>), Ref("u", <<"a">>, "<>", "t", <<"a">>, <<>>),
         Ref("u", <<"b">>, ">", "t", <<"a">>, <<>>), Ref("u", <<"b">>, "-", "t", <<"a">>, <<>>), Ref("u", <<"a", "b">>, ">", "t", <<"a", "b">>, <<>>), Ref("u", <<"a">>, "<>", "t", <<"b">>, <<>>), Ref("s.u", <<"c">>, ">", "t", <<"a">>, <<>>), Ref("t", <<"a">>, "<>", "t", <<"b">>, <<>>) >>) >> ]

(* --------------------------- the circumstances ------------------------- *)
On(k, at, do) == [on |-> k, at |-> at, do |-> do]
Each(k, ats, dos) == [n \in 1..(Len(ats) * Len(dos)) |-> On(k, ats[1 + ((n - 1) % Len(ats))], dos[1 + ((n - 1) \div Len(ats))])]
Some_ == <<"all", "first", "last">>
Circumstances ==
  Each("whole", <<"">>, <<"lift", "turn", "reverse", "rotate">>)
  \o Each("table", Some_, <<"set", "noted", "alias", "note", "early", "lead", "trail", "expr", "index", "unused", "key", "again", "many columns", "columns after", "many indexes", "indexes after", "long note">>)
  \o Each("column", Some_, <<"note", "noted", "unique", "not null", "null", "increment", "free", "array", "text", "many", "ref", "one">>)
  \o Each("index", Some_, <<"name", "named", "type", "unique">>)
  \o Each("enum", <<"all">>, <<"noted", "more", "before", "many">>)
  \o Each("ref", Some_, <<"name", "block", "delete", "free">>)
  \o Each("group", <<"all", "last">>, <<"set", "note", "more", "before", "many">>)
  \o Each("project", <<"all">>, <<"props", "note", "none", "name", "many">>)
  \o Each("whole", <<"">>, <<"first", "after", "copy", "cross", "grouped", "notes", "qualify", "unalias", "schema", "quote", "project last", "alike", "many tables", "many enums", "far", "far apart", "many refs">>)

Picked(n, len, at) == CASE at = "first" -> n = 1 [] at = "last" -> n = len [] OTHER -> TRUE
InList(s, at, F(_)) == [n \in 1..Len(s) |-> IF Picked(n, Len(s), at) THEN F(s[n]) ELSE s[n]]
ByKind(s, k, at, F(_, _)) ==
  LET N == SelectSeq([n \in 1..Len(s) |-> n], LAMBDA n : s[n].k = k)
      P == { N[m] : m \in { m \in 1..Len(N) : Picked(m, Len(N), at) } }
  IN [n \in 1..Len(s) |-> IF n \in P THEN F(s[n], n) ELSE s[n]]
Last(x) == SubSeq(x, Len(x), Len(x))

Wide_(w, n) == [k \in 1..n |-> << Col(w \o ToString(k), IF k % 3 = 0 THEN "text" ELSE "int", IF k % 4 = 1 THEN <<"note: 'n'">> ELSE <<>>) >>]
Thin(w, n) == [k \in 1..n |-> Idx(<<w \o ToString(k)>>, IF k % 4 = 1 THEN <<"name: 'n'">> ELSE <<>>)]
RECURSIVE Often(_, _)
Often(s, n) == IF n = 0 THEN "" ELSE s \o Often(s, n - 1)
Long == Often("quite a long text goes here, on and on; ", 16)
Many(w, n) == [k \in 1..n |-> w \o ToString(k) \o ": 'v'"]
DoTable(do, d, n) ==
  CASE do = "set"    -> [d EXCEPT !.set = @ \o <<"z: 'v'">>]
    [] do = "noted"  -> [d EXCEPT !.set = <<"note_: 'n'", "headercolor: #aabbcc">> \o @]
    [] do = "alias"  -> IF d.al = "" THEN [d EXCEPT !.al = "al" \o ToString(n)] ELSE d
    [] do = "note"   -> [d EXCEPT !.notes = @ \o <<" Note: 'n'">>]
    [] do = "early"  -> [d EXCEPT !.early = TRUE, !.notes = @ \o <<" note { 'm' }">>]
    [] do = "lead"   -> [d EXCEPT !.cols = << Col("q0", "text", <<>>) >> \o @]
    [] do = "trail"  -> [d EXCEPT !.cols = @ \o << Col("q1", "int", <<"unique", "note: 'q'">>) >>]
    [] do = "expr"   -> [d EXCEPT !.idx = << Idx(<<"`now()`">>, <<>>) >> \o @]
    [] do = "index"  -> [d EXCEPT !.cols = @ \o << Col("q2", "int", <<>>) >>, !.idx = << Idx(<<"q2">>, <<"type: hash">>) >> \o @]
    [] do = "unused" -> [d EXCEPT !.cols = @ \o << Col("q3", "int", <<>>), Col("q4", "int", <<>>) >>, !.idx = @ \o << Idx(<<"q4", "q3">>, <<"unique">>) >>]
    [] do = "key"    -> [d EXCEPT !.cols = << Col("q5", "int", <<"pk">>) >> \o @]
    [] do = "many columns"  -> [d EXCEPT !.cols = Cat(Wide_("w", 18)) \o @]
    [] do = "columns after" -> [d EXCEPT !.cols = @ \o Cat(Wide_("w", 11))]
    [] do = "many indexes"  -> [d EXCEPT !.cols = @ \o Cat(Wide_("w", 14)), !.idx = Thin("w", 14) \o @]
    [] do = "indexes after" -> [d EXCEPT !.cols = @ \o Cat(Wide_("w", 5)), !.idx = @ \o Thin("w", 5)]
    [] do = "long note"     -> [d EXCEPT !.set = @ \o <<"long_note: '" \o Long \o Long \o "'">>]
    [] do = "again"  -> IF d.cols = <<>> THEN d ELSE [d EXCEPT !.idx = @ \o << Idx(<<d.cols[1].n, "`z`">>, <<>>) >>]
(* With many circumstances at once: what would add a fault of its own is   *)
(* left out, so that the fault that is there remains the only one.          *)
HasOne(x, P) == \E k \in 1..Len(x.s) : \E p \in P : Len(x.s[k]) >= Len(p) /\ SubSeq(x.s[k], 1, Len(p)) = p
FineCol(do, x) ==
  ~Mixed \/ CASE do = "null" -> ~HasOne(x, {"pk", "primary", "null", "not null"}) [] do = "not null" -> ~HasOne(x, {"null", "not null"})
              [] do \in {"unique", "increment"} -> ~HasOne(x, {do}) [] do \in {"note", "noted"} -> ~HasOne(x, {"note"}) [] do = "free" -> ~HasOne(x, {"name", "z"})
              [] do \in {"array", "text"} -> FALSE [] OTHER -> TRUE
FineIdx(do, x) ==
  ~Mixed \/ CASE do \in {"type", "unique"} -> ~HasOne(x, {"pk", "unique", "type"}) [] do = "name" -> ~HasOne(x, {"name"}) [] do = "named" -> ~HasOne(x, {"note", "z"}) [] OTHER -> TRUE
HasKey(d) == (\E k \in 1..Len(d.cols) : HasOne(d.cols[k], {"pk", "primary"})) \/ (\E k \in 1..Len(d.idx) : HasOne(d.idx[k], {"pk"}))
FineTable(do, d) == ~Mixed \/ (do = "key" => ~HasKey(d))
FineRef(do, d) == ~Mixed \/ ((do = "delete" => ~HasOne(d, {"update"})) /\ (do = "free" => ~HasOne(d, {"z"})))
DoCol(do, c) ==
  CASE do = "note"  -> [c EXCEPT !.s = @ \o <<"note: 'n'">>]
    [] do = "noted" -> [c EXCEPT !.s = <<"note: 'n'", "z">> \o @]
    [] do = "free"  -> [c EXCEPT !.s = <<"name: 1">> \o @ \o <<"z: `y`">>]
    [] do = "array" -> [c EXCEPT !.t = @ \o "[]"]
    [] do = "many"  -> [c EXCEPT !.s = Many("m", 11) \o @]
    [] do = "text"  -> [c EXCEPT !.t = IF @ = "int" THEN "varchar(7)" ELSE @]
    [] OTHER        -> [c EXCEPT !.s = @ \o <<do>>]
(* columns refer to columns of their own, of the same type                 *)
Mirrored(s, at, sym, zr) ==
  LET C == [n \in 1..Len(s) |-> IF s[n].k = "table" THEN { m \in 1..Len(s[n].cols) : Picked(m, Len(s[n].cols), at) } ELSE {}]
      Own(n, m) == "m" \o ToString(n) \o "_" \o ToString(m)
      MirrorCols(n) == Cat([m \in 1..(IF s[n].k = "table" THEN Len(s[n].cols) ELSE 0) |-> IF m \in C[n] THEN << Col(Own(n, m), s[n].cols[m].t, <<"unique">>) >> ELSE <<>>])
  IN [n \in 1..Len(s) |-> IF C[n] = {} THEN s[n] ELSE [s[n] EXCEPT !.cols = [m \in 1..Len(@) |-> IF m \in C[n] THEN [@[m] EXCEPT !.s = @ \o <<"ref: " \o sym \o " " \o zr \o "." \o Own(n, m)>>] ELSE @[m]]]]
     \o << T_(zr, Cat([n \in 1..Len(s) |-> MirrorCols(n)]), <<>>) >>
DoIdx(do, x) ==
  CASE do = "name"  -> [x EXCEPT !.s = @ \o <<"name: 'i'">>]
    [] do = "named" -> [x EXCEPT !.s = <<"note: 'i'", "z">> \o @]
    [] do = "type"  -> [x EXCEPT !.s = @ \o <<"type: btree">>]
    [] do = "unique" -> [x EXCEPT !.s = @ \o <<"unique">>]
DoEnum(do, d) ==
  CASE do = "noted"  -> [d EXCEPT !.vals = Map(@, LAMBDA v : IF Last(v) = "]" THEN v ELSE v \o " [note: 'n', z]")]
    [] do = "more"   -> [d EXCEPT !.vals = @ \o <<"zz", "\"z z\"">>]
    [] do = "many"   -> [d EXCEPT !.vals = Map([k \in 1..17 |-> k], LAMBDA k : "m" \o ToString(k)) \o @]
    [] do = "before" -> [d EXCEPT !.vals = <<"y [note: 'y']">> \o @]
DoRef(do, d) ==
  CASE do = "name"   -> [d EXCEPT !.name = "r"]
    [] do = "block"  -> [d EXCEPT !.block = TRUE]
    [] do = "delete" -> [d EXCEPT !.s = @ \o <<"update: set null">>]
    [] do = "free"   -> [d EXCEPT !.s = <<"z: 1">> \o @]
DoGroup(do, d) ==
  CASE do = "set"    -> [d EXCEPT !.set = @ \o <<"z: #fff">>]
    [] do = "note"   -> [d EXCEPT !.notes = @ \o <<"Note: 'n'">>]
    [] do = "more"   -> [d EXCEPT !.items = @ \o <<"zz">>]
    [] do = "many"   -> [d EXCEPT !.set = Many("m", 12) \o @, !.notes = @ \o <<"Note: '" \o Long \o "'">>]
    [] do = "before" -> [d EXCEPT !.items = <<"s.zz">> \o @]
DoProject(do, d) ==
  CASE do = "props" -> [d EXCEPT !.props = <<"zz: 'y'">> \o @ \o <<"z y: 1">>]
    [] do = "note"  -> [d EXCEPT !.notes = @ \o <<"Note: 'n'">>]
    [] do = "many"  -> [d EXCEPT !.props = Many("m", 13) \o @]
    [] do = "none"  -> [d EXCEPT !.props = SelectSeq(@, LAMBDA x : x # "database_type: 'PostgreSQL'")]
    [] do = "name"  -> [d EXCEPT !.id = "\"q r\""]

Extra == << Tab("zz", "zy", << Col("i", "int", <<"pk">>), Col("a", "int", <<>>) >>, <<>>), Enum("zz", <<"v">>) >>
Cross == << T_("zx", << Col("a", "int", <<"ref: > zw.i">>), Col("b", "int", <<>>) >>, <<>>), T_("zw", << Col("i", "int", <<"pk">>), Col("a", "text", <<>>) >>, <<>>), Ref("zx", <<"b">>, ">", "zw", <<"i">>, <<>>) >>
Copies(s) == LET T == SelectSeq(s, LAMBDA d : d.k \in {"table", "enum"} /\ d.id \in Bare) IN Map(T, LAMBDA d : IF d.k = "table" THEN [d EXCEPT !.id = "cp." \o d.id, !.al = ""] ELSE [d EXCEPT !.id = "cp." \o d.id])
(* the same names, for other things                                        *)
Alike_ == << Enum("al1", <<"a", "b", "t">>), T_("alike.a", << Num("t"), Num("u"), Num("x") >>, <<>>), Group("t", <<>>), T_("alike.x", << Num("a"), Num("b") >>, <<>>) >>
Moved(n) == IF n \in Bare THEN "r." \o n ELSE n
RECURSIVE Dot(_, _)
Dot(n, k) == IF k > Len(n) THEN 0 ELSE IF SubSeq(n, k, k) = "." THEN k ELSE Dot(n, k + 1)
InQuotes(n) == IF n = "" \/ SubSeq(n, 1, 1) \in {"\"", "`"} THEN n ELSE "\"" \o n \o "\""
Quoted(n) == IF n = "" \/ SubSeq(n, 1, 1) = "\"" THEN n ELSE LET k == Dot(n, 1) IN IF k = 0 THEN InQuotes(n) ELSE InQuotes(SubSeq(n, 1, k - 1)) \o "." \o InQuotes(SubSeq(n, k + 1, Len(n)))
QuoteAll(s) ==
  Map(Renamed(s, Quoted, Quoted, Id_), LAMBDA d :
    CASE d.k = "table" -> [d EXCEPT !.al = Quoted(@), !.cols = Map(@, LAMBDA c : [c EXCEPT !.n = InQuotes(@)]), !.idx = Map(@, LAMBDA x : [x EXCEPT !.c = Map(@, InQuotes)])]
      [] d.k = "ref"   -> [d EXCEPT !.lc = Map(@, InQuotes), !.rc = Map(@, InQuotes)]
      [] OTHER         -> d)
DoWhole(do, s) ==
  CASE do = "lift"     -> Lifted(s)
    [] do = "turn"     -> Turned(s)
    [] do = "reverse"  -> Reversed(s)
    [] do = "rotate"   -> Rotated(Rotated(s))
    [] do = "first"    -> Extra \o s
    [] do = "after"    -> s \o Extra
    [] do = "copy"     -> Copies(s) \o s
    [] do = "cross"    -> s \o Cross
    [] do = "grouped"  -> s \o << Group("all", Map(SelectSeq(s, LAMBDA d : d.k = "table"), LAMBDA d : Full(d.id))) >>
    [] do = "notes"    -> << Free("Note: 'n'"), Free("// c") >> \o s \o << Free("Note { '''m''' }") >>
    [] do = "qualify"  -> Qualified(s)
    [] do = "unalias"  -> Unaliased(s)
    [] do = "schema"   -> Renamed(s, Moved, Moved, Moved)
    [] do = "quote"    -> QuoteAll(s)
    [] do = "project last" -> SelectSeq(s, LAMBDA d : d.k # "project") \o SelectSeq(s, LAMBDA d : d.k = "project")
    [] do = "alike"    -> Alike_ \o s
    [] do = "many tables" -> [k \in 1..20 |-> T_("o" \o ToString(k), << Num("a"), Num("b") >>, <<>>)] \o s
    [] do = "many enums"  -> [k \in 1..12 |-> Enum("n" \o ToString(k), <<"v", "w">>)] \o s
    [] do = "far"         -> << Free("// " \o Long \o Long) >> \o s
    [] do = "far apart"   -> Cat(Map(s, LAMBDA d : << d, Free("/* " \o Long \o Long \o " */") >>))
    [] do = "many refs"   -> s \o << T_("ow", << Key("a") >>, <<>>), T_("om", Cat(Wide_("w", 18)), <<>>) >> \o [k \in 1..12 |-> Ref("om", <<"w" \o ToString(k + (k - 1) \div 2)>>, ">", "ow", <<"a">>, <<>>)]
With(c, s) ==
  CASE c.on = "table"   -> ByKind(s, "table", c.at, LAMBDA d, n : IF FineTable(c.do, d) THEN DoTable(c.do, d, n) ELSE d)
    [] c.on = "column" /\ c.do = "ref" -> Mirrored(s, c.at, ">", "zr")
    [] c.on = "column" /\ c.do = "one" -> Mirrored(s, c.at, "-", "zo")
    [] c.on = "column"  -> ByKind(s, "table", "all", LAMBDA d, n : [d EXCEPT !.cols = InList(@, c.at, LAMBDA x : IF FineCol(c.do, x) THEN DoCol(c.do, x) ELSE x)])
    [] c.on = "index"   -> ByKind(s, "table", "all", LAMBDA d, n : [d EXCEPT !.idx = InList(@, c.at, LAMBDA x : IF FineIdx(c.do, x) THEN DoIdx(c.do, x) ELSE x)])
    [] c.on = "enum"    -> ByKind(s, "enum", c.at, LAMBDA d, n : DoEnum(c.do, d))
    [] c.on = "ref"     -> ByKind(s, "ref", c.at, LAMBDA d, n : IF FineRef(c.do, d) THEN DoRef(c.do, d) ELSE d)
    [] c.on = "group"   -> ByKind(s, "group", c.at, LAMBDA d, n : DoGroup(c.do, d))
    [] c.on = "project" -> ByKind(s, "project", c.at, LAMBDA d, n : DoProject(c.do, d))
    [] c.on = "whole"   -> DoWhole(c.do, s)

(* the circumstances that touch what the rule speaks of, all of them at once *)
Kinds == [r \in DOMAIN Bases |->
  CASE r = "C12" -> {"project"} [] r = "C13" -> {"table", "column", "enum", "group"} [] r = "C14" -> {"table", "column", "index", "enum", "ref", "group"}
    [] r \in {"C15", "C16"} -> {"table", "column", "index"} [] r = "C17" -> {"table", "column"} [] r = "C18" -> {"table", "column", "enum"}
    [] r = "C19" -> {"table", "column", "ref", "group"} [] OTHER -> {"table", "column", "index", "ref"}]
Close(r, c) == \/ c.on \in Kinds[r] /\ c.at = "all"
               \/ c.on = "whole" /\ c.do \in {"turn", "reverse", "schema", "quote", "alike", "first"}

Bulky == {"many", "many columns", "columns after", "many indexes", "indexes after", "long note"}
Allowed(n) == (Narrow => Close(rule, Circumstances[n])) /\ (Mixed => (Circumstances[n].do \notin Bulky /\ ~(Circumstances[n].on = "group" /\ Circumstances[n].do \in {"more", "before"}) /\ ~(rule \in {"C20", "C21", "C22"} /\ Circumstances[n].do = "ref")))
Ahead == { n \in (focus + 1)..Len(Circumstances) : Allowed(n) }
Nearest == CHOOSE n \in Ahead : \A m \in Ahead : n <= m

AInit == /\ rule \in Starts /\ \E k \in 1..Len(Bases[rule]) : doc = Bases[rule][k]
         /\ focus = 0 /\ left \in Steps /\ out = FALSE
Add == /\ left > 0 /\ ~out /\ ~Mixed
       /\ \E n \in (focus + 1)..(Len(Circumstances) - left + 1) :
            /\ Allowed(n)
            /\ doc' = With(Circumstances[n], doc) /\ doc' # doc
            /\ focus' = n
       /\ left' = left - 1 /\ UNCHANGED <<out, rule>>
Take  == Mixed /\ ~out /\ Ahead # {} /\ focus' = Nearest /\ doc' = With(Circumstances[Nearest], doc) /\ UNCHANGED <<left, out, rule>>
Leave == Mixed /\ ~out /\ Ahead # {} /\ focus' = Nearest /\ UNCHANGED <<doc, left, out, rule>>
AOut == /\ ~out /\ IF Mixed THEN Ahead = {} ELSE left = 0
        /\ out' = TRUE /\ UNCHANGED <<doc, focus, left, rule>>
(* left twice: taken in about a third of the steps of a random walk *)
ANext == Add \/ Take \/ Leave \/ (Leave /\ TRUE) \/ AOut
ASpec == AInit /\ [][ANext]_avars
=============================================================================
