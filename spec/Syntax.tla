------------------------------- MODULE Syntax -------------------------------
(* The grammar of DBML as this library reads it, as operators from a text  *)
(* and a position to a tree node.  A result is a record with field p, the  *)
(* position after the last token of the construct (0: no match), and n,    *)
(* the node.  Nodes carry sp = <<first, last>>: offsets (0-based, end      *)
(* exclusive) of their first character and of the end of their last token. *)
EXTENDS Lex

Fail == [p |-> 0]
Span(i, p) == <<i - 1, p - 1>>
Opt(r) == IF r.p = 0 THEN <<>> ELSE <<r.n>>
EndOf(r, p) == IF r.p = 0 THEN p ELSE r.p

(* ------------------------------ literals ------------------------------- *)
(* Quoted text: blanks right after the opening quote are not part of it.   *)
Quoted(t, i, q) ==
  IF ~At(t, i, q) THEN Fail
  ELSE LET v == BlankEnd(t, i + Len(q))
           e == Find(t, v, q)
       IN IF e = 0 THEN Fail ELSE [p |-> e + Len(q), s |-> Sub(t, v, e - 1)]

StringValue(t, i) ==
  LET r == Quoted(t, i, "'''") IN IF r.p # 0 THEN r ELSE Quoted(t, i, "'")

Ident(t, i) ==
  IF Ch(t, i) = "\"" THEN
    LET r == Quoted(t, i, "\"")
    IN IF r.p = 0 THEN Fail
       ELSE [p |-> r.p, n |-> [sp |-> Span(i, r.p), raw |-> Sub(t, i, r.p - 1), name |-> r.s]]
  ELSE LET e == VarEnd(t, i)
       IN IF e = 0 THEN Fail
          ELSE [p |-> e, n |-> [sp |-> Span(i, e), raw |-> Sub(t, i, e - 1), name |-> Sub(t, i, e - 1)]]

Lit(t, i, p, kind, v) ==
  [p |-> p, n |-> [sp |-> Span(i, p), raw |-> Sub(t, i, p - 1), t |-> kind, v |-> v]]

KeyWord(t, i, s) == At(t, i, s) /\ Ch(t, i + Len(s)) \notin Word

Number(t, i) ==
  LET d == DigitsEnd(t, i) IN
  IF d = i THEN Fail
  ELSE IF Ch(t, d) = "." THEN
         LET e == DigitsEnd(t, d + 1)
         IN Lit(t, i, e, "dec", CanonDec(Sub(t, i, d - 1), Sub(t, d + 1, e - 1)))
  ELSE LET c == CanonInt(Sub(t, i, d - 1))
       IN IF NumLeq(c, MaxI64) THEN Lit(t, i, d, "int", c) ELSE Fail

HexColor(t, i) ==
  IF Ch(t, i) # "#" THEN Fail
  ELSE LET hex(n) == \A k \in 1..n : Ch(t, i + k) \in Hex
           n == IF hex(6) THEN 6 ELSE IF hex(3) THEN 3 ELSE 0
       IN IF n = 0 THEN Fail ELSE Lit(t, i, i + n + 1, "hex", Sub(t, i, i + n))

Value(t, i) ==
  LET c == Ch(t, i) IN
  CASE c = "'" -> LET r == StringValue(t, i) IN IF r.p = 0 THEN Fail ELSE Lit(t, i, r.p, "str", r.s)
    [] c = "`" -> LET r == Quoted(t, i, "`") IN IF r.p = 0 THEN Fail ELSE Lit(t, i, r.p, "expr", r.s)
    [] c \in Digit -> Number(t, i)
    [] c = "#" -> HexColor(t, i)
    [] KeyWord(t, i, "true") -> Lit(t, i, i + 4, "bool", "true")
    [] KeyWord(t, i, "false") -> Lit(t, i, i + 5, "bool", "false")
    [] KeyWord(t, i, "null") -> Lit(t, i, i + 4, "null", "null")
    [] OTHER -> Fail

WordValue(t, i) ==
  LET e == SpacedEnd(t, i) IN IF e = 0 THEN Fail ELSE Lit(t, i, e, "enum", Sub(t, i, e - 1))
QuotedValue(t, i) ==
  LET r == Quoted(t, i, "\"") IN IF r.p = 0 THEN Fail ELSE Lit(t, i, r.p, "str", r.s)

(* A value or a bare word; in settings also a double-quoted text.          *)
PropValue(t, i) == LET r == Value(t, i) IN IF r.p # 0 THEN r ELSE WordValue(t, i)
AttrValue(t, i) == LET r == PropValue(t, i) IN IF r.p # 0 THEN r ELSE QuotedValue(t, i)

Key(t, i) == LET e == SpacedEnd(t, i)
             IN IF e = 0 THEN Fail
                ELSE [p |-> e, n |-> [sp |-> Span(i, e), raw |-> Sub(t, i, e - 1), name |-> Sub(t, i, e - 1)]]

Attr(t, i) ==
  LET k == Key(t, i) IN
  IF k.p = 0 THEN Fail
  ELSE LET j == Skip(t, k.p)
           r == IF Ch(t, j) = ":" THEN AttrValue(t, Skip(t, j + 1)) ELSE Fail
           e == EndOf(r, k.p)
       IN [p |-> e, n |-> [sp |-> Span(i, e), key |-> k.n, val |-> Opt(r)]]

Prop(t, i) ==
  LET k == Key(t, i) IN
  IF k.p = 0 THEN Fail
  ELSE LET j == Skip(t, k.p)
           r == IF Ch(t, j) = ":" THEN PropValue(t, Skip(t, j + 1)) ELSE Fail
       IN IF r.p = 0 THEN Fail
          ELSE [p |-> r.p, n |-> [sp |-> Span(i, r.p), key |-> k.n, val |-> r.n]]

(* ---------------------------- relationships ---------------------------- *)
Relation(t, i) ==
  IF At(t, i, "<>") THEN [p |-> i + 2, n |-> "<>"]
  ELSE IF Ch(t, i) \in {"-", ">", "<"} THEN [p |-> i + 1, n |-> Ch(t, i)] ELSE Fail

(* --------------------------- lists of items ---------------------------- *)
IndexCol(t, i) ==
  IF Ch(t, i) = "`" THEN
    LET r == Quoted(t, i, "`")
    IN IF r.p = 0 THEN Fail
       ELSE [p |-> r.p, n |-> [sp |-> Span(i, r.p), raw |-> Sub(t, i, r.p - 1), name |-> r.s, expr |-> TRUE]]
  ELSE LET r == Ident(t, i)
       IN IF r.p = 0 THEN Fail
          ELSE [p |-> r.p, n |-> [sp |-> r.n.sp, raw |-> r.n.raw, name |-> r.n.name, expr |-> FALSE]]

RECURSIVE RefIdent(_, _)   \* declared early: inline references occur in lists
RECURSIVE ListRest(_, _, _, _)

RefInline(t, i) ==
  IF ~At(t, i, "ref") THEN Fail
  ELSE LET c == Skip(t, i + 3) IN
       IF Ch(t, c) # ":" THEN Fail
       ELSE LET r == Relation(t, Skip(t, c + 1)) IN
            IF r.p = 0 THEN Fail
            ELSE LET e == RefIdent(t, Skip(t, r.p))
                 IN IF e.p = 0 THEN Fail
                    ELSE [p |-> e.p, n |-> [sp |-> Span(i, e.p), inline |-> TRUE, rel |-> r.n, rhs |-> e.n]]

ColAttr(t, i) ==
  LET r == RefInline(t, i) IN
  IF r.p # 0 THEN r
  ELSE LET a == Attr(t, i)
       IN IF a.p = 0 THEN Fail
          ELSE [p |-> a.p, n |-> [sp |-> a.n.sp, inline |-> FALSE, key |-> a.n.key, val |-> a.n.val]]

Item(kind, t, i) ==
  CASE kind = "attr"  -> Attr(t, i)
    [] kind = "col"   -> ColAttr(t, i)
    [] kind = "ident" -> Ident(t, i)
    [] kind = "index" -> IndexCol(t, i)
    [] kind = "value" -> Value(t, i)

(* The part of a comma-separated list after an item that ends at i.        *)
ListRest(kind, t, i, acc) ==
  LET gap(x) == IF kind = "value" THEN x ELSE Skip(t, x)   \* a type is one token
      j == gap(i)
  IN IF Ch(t, j) # "," THEN [p |-> i, n |-> acc]
     ELSE LET r == Item(kind, t, gap(j + 1))
          IN IF r.p = 0 THEN [p |-> i, n |-> acc] ELSE ListRest(kind, t, r.p, Append(acc, r.n))

(* open item , item , ... close -- possibly empty *)
Bracketed(kind, t, i, open, close) ==
  IF Ch(t, i) # open THEN Fail
  ELSE LET gap(x) == IF kind = "value" THEN x ELSE Skip(t, x)
           j == gap(i + 1)
           f == Item(kind, t, j)
           l == IF f.p = 0 THEN [p |-> j, n |-> <<>>] ELSE ListRest(kind, t, f.p, <<f.n>>)
           e == gap(l.p)
       IN IF Ch(t, e) = close THEN [p |-> e + 1, n |-> l.n] ELSE Fail

RefComposition(t, i) ==
  LET r == Ident(t, i) IN
  IF r.p # 0 THEN [p |-> r.p, n |-> <<r.n>>]
  ELSE LET l == Bracketed("ident", t, i, "(", ")")
       IN IF l.p = 0 \/ l.n = <<>> THEN Fail ELSE l

RefIdent(t, i) ==
  LET a == Ident(t, i) IN
  IF a.p = 0 THEN Fail
  ELSE LET d == Skip(t, a.p) IN
       IF Ch(t, d) # "." THEN Fail
       ELSE LET s == Skip(t, d + 1)
                b == Ident(t, s)
                q == IF b.p = 0 THEN 0 ELSE Skip(t, b.p)
                three == b.p # 0 /\ Ch(t, q) = "."
                c == RefComposition(t, IF three THEN Skip(t, q + 1) ELSE s)
            IN IF c.p = 0 THEN Fail
               ELSE [p |-> c.p,
                     n |-> [sp |-> Span(i, c.p),
                            schema |-> IF three THEN <<a.n>> ELSE <<>>,
                            table |-> IF three THEN b.n ELSE a.n,
                            cols |-> c.n]]

(* A settings list as a node with its span.                                *)
Settings(kind, t, i) ==
  LET l == Bracketed(kind, t, i, "[", "]")
  IN IF l.p = 0 THEN Fail ELSE [p |-> l.p, n |-> [sp |-> Span(i, l.p), items |-> l.n]]

(* An update or delete setting with an unknown bare word is rejected.      *)
Actions == {"no action", "cascade", "restrict", "set null", "set default"}
RefSettings(t, i) ==
  LET s == Settings("attr", t, i)
      bad(a) == /\ a.key.name \in {"update", "delete"}
                /\ a.val # <<>>
                /\ a.val[1].t = "enum" /\ a.val[1].v \notin Actions
  IN IF s.p # 0 /\ \E k \in 1..Len(s.n.items) : bad(s.n.items[k]) THEN Fail ELSE s

RefStmt(t, i) ==
  LET l == RefIdent(t, i) IN
  IF l.p = 0 THEN Fail
  ELSE LET r == Relation(t, Skip(t, l.p)) IN
       IF r.p = 0 THEN Fail
       ELSE LET x == RefIdent(t, Skip(t, r.p)) IN
            IF x.p = 0 THEN Fail
            ELSE LET s == RefSettings(t, Skip(t, x.p))
                     e == EndOf(s, x.p)
                 IN [p |-> e, n |-> [sp |-> Span(i, e), lhs |-> l.n, rel |-> r.n, rhs |-> x.n, set |-> Opt(s)]]

RefDecl(t, i) ==
  LET k == Kw(t, i, "ref") IN
  IF k = 0 THEN Fail
  ELSE LET j == Skip(t, k)
           m == Ident(t, j)
           c == IF m.p = 0 THEN j ELSE Skip(t, m.p)
           blk == Ch(t, c) = "{"
           s == IF blk \/ Ch(t, c) = ":" THEN RefStmt(t, Skip(t, c + 1)) ELSE Fail
           z == IF blk /\ s.p # 0 THEN Skip(t, s.p) ELSE 0
       IN IF s.p = 0 \/ (blk /\ Ch(t, z) # "}") THEN Fail
          ELSE [p |-> IF blk THEN z + 1 ELSE s.p,
                n |-> [k |-> "ref", sp |-> s.n.sp, name |-> Opt(m), lhs |-> s.n.lhs, rel |-> s.n.rel,
                       rhs |-> s.n.rhs, set |-> s.n.set]]

(* -------------------------------- notes -------------------------------- *)
NoteDecl(t, i) ==
  LET k == Kw(t, i, "note") IN
  IF k = 0 THEN Fail
  ELSE LET c == Skip(t, k)
           blk == Ch(t, c) = "{"
           v == Skip(t, c + 1)
           s == IF blk \/ Ch(t, c) = ":" THEN StringValue(t, v) ELSE Fail
           z == IF blk /\ s.p # 0 THEN Skip(t, s.p) ELSE 0
       IN IF s.p = 0 \/ (blk /\ Ch(t, z) # "}") THEN Fail
          ELSE LET e == IF blk THEN z + 1 ELSE s.p
               IN [p |-> e, n |-> [k |-> "note", sp |-> Span(i, e), val |-> Lit(t, v, s.p, "str", s.s).n]]

(* ------------------------------- indexes ------------------------------- *)
IndexTypes == {"btree", "gin", "gist", "hash"}
IndexSettings(t, i) ==
  LET s == Settings("attr", t, i)
      bad(a) == a.key.name = "type" /\ a.val # <<>> /\ a.val[1].v \notin IndexTypes
  IN IF s.p # 0 /\ \E k \in 1..Len(s.n.items) : bad(s.n.items[k]) THEN Fail ELSE s

IndexDef(t, i) ==
  LET one == IndexCol(t, i)
      c == IF one.p # 0 THEN [p |-> one.p, n |-> <<one.n>>] ELSE Bracketed("index", t, i, "(", ")")
  IN IF c.p = 0 THEN Fail
     ELSE LET s == IndexSettings(t, Skip(t, c.p))
              e == EndOf(s, c.p)
          IN [p |-> e, n |-> [sp |-> Span(i, e), cols |-> c.n, set |-> Opt(s)]]

RECURSIVE IndexDefs(_, _, _)
IndexDefs(t, i, acc) ==
  LET r == IndexDef(t, Skip(t, i))
  IN IF r.p = 0 THEN [p |-> i, n |-> acc] ELSE IndexDefs(t, r.p, Append(acc, r.n))

IndexesDecl(t, i) ==
  LET k == Kw(t, i, "indexes") IN
  IF k = 0 THEN Fail
  ELSE LET b == Skip(t, k) IN
       IF Ch(t, b) # "{" THEN Fail
       ELSE LET l == IndexDefs(t, b + 1, <<>>)
                e == Skip(t, l.p)
            IN IF Ch(t, e) # "}" THEN Fail
               ELSE [p |-> e + 1, n |-> [sp |-> Span(b, e + 1), defs |-> l.n]]

(* -------------------------- schema-qualified names ---------------------- *)
DeclIdent(t, i) ==
  LET a == Ident(t, i) IN
  IF a.p = 0 THEN Fail
  ELSE LET d == Skip(t, a.p)
           b == IF Ch(t, d) = "." THEN Ident(t, Skip(t, d + 1)) ELSE Fail
       IN IF b.p = 0 THEN [p |-> a.p, n |-> [sp |-> Span(i, a.p), schema |-> <<>>, name |-> a.n]]
          ELSE [p |-> b.p, n |-> [sp |-> Span(i, b.p), schema |-> <<a.n>>, name |-> b.n]]

(* -------------------------------- enums -------------------------------- *)
EnumValue(t, i) ==
  LET v == Ident(t, i) IN
  IF v.p = 0 THEN Fail
  ELSE LET s == Settings("attr", t, Skip(t, v.p))
           e == EndOf(s, v.p)
       IN [p |-> e, n |-> [sp |-> Span(i, e), val |-> v.n, set |-> Opt(s)]]

RECURSIVE EnumValues(_, _, _)
EnumValues(t, i, acc) ==
  LET r == EnumValue(t, Skip(t, i))
  IN IF r.p = 0 THEN [p |-> i, n |-> acc] ELSE EnumValues(t, r.p, Append(acc, r.n))

EnumDecl(t, i) ==
  LET k == Kw(t, i, "enum ")
      d == IF k = 0 THEN Fail ELSE DeclIdent(t, Skip(t, k))
  IN IF d.p = 0 THEN Fail
     ELSE LET b == Skip(t, d.p) IN
          IF Ch(t, b) # "{" THEN Fail
          ELSE LET l == EnumValues(t, b + 1, <<>>)
                   e == Skip(t, l.p)
               IN IF Ch(t, e) # "}" THEN Fail
                  ELSE [p |-> e + 1, n |-> [k |-> "enum", sp |-> Span(i, e + 1), ident |-> d.n, vals |-> l.n]]

(* ------------------------------- columns ------------------------------- *)
RECURSIVE Arrays(_, _, _)
Arrays(t, i, acc) ==
  IF Ch(t, i) # "[" THEN [p |-> i, n |-> acc]
  ELSE LET d == DigitsEnd(t, i + 1)
           c == CanonInt(Sub(t, i + 1, d - 1))
       IN IF Ch(t, d) # "]" \/ (d > i + 1 /\ ~NumLeq(c, MaxU32)) THEN [p |-> i, n |-> acc]
          ELSE Arrays(t, d + 1, Append(acc, IF d = i + 1 THEN "" ELSE c))

TypeTail(t, e) ==     \* arguments and array dimensions after the name that ends at e
  LET a == Bracketed("value", t, e, "(", ")")
      r == Arrays(t, EndOf(a, e), <<>>)
  IN [p |-> r.p, args |-> IF a.p = 0 THEN <<>> ELSE a.n, arr |-> r.n]

QuotedType(t, i) ==
  IF Ch(t, i) # "\"" THEN Fail
  ELSE LET e == SpacedEnd(t, i + 1) IN
       IF e = 0 THEN Fail
       ELSE LET x == TypeTail(t, e) IN
            IF Ch(t, x.p) # "\"" THEN Fail
            ELSE LET r == Arrays(t, x.p + 1, x.arr)
                 IN [p |-> r.p, name |-> Sub(t, i + 1, e - 1), args |-> x.args, arr |-> r.n]

PlainType(t, i) ==
  LET e == VarEnd(t, i) IN
  IF e = 0 THEN Fail
  ELSE LET x == TypeTail(t, e)
       IN [p |-> x.p, name |-> Sub(t, i, e - 1), args |-> x.args, arr |-> x.arr]

ColType(t, i) ==
  LET q == Ident(t, i)
      qual == q.p # 0 /\ Ch(t, q.p) = "."
      j == IF qual THEN q.p + 1 ELSE i
      a == QuotedType(t, j)
      r == IF a.p # 0 THEN a ELSE PlainType(t, j)
  IN IF r.p = 0 THEN Fail
     ELSE [p |-> r.p,
           n |-> [sp |-> Span(i, r.p), raw |-> Sub(t, i, r.p - 1),
                  schema |-> IF qual THEN <<q.n.name>> ELSE <<>>,
                  base |-> r.name,
                  name |-> IF qual THEN q.n.name \o "." \o r.name ELSE r.name,
                  args |-> r.args, arr |-> r.arr]]

Column(t, i) ==
  LET c == Ident(t, i) IN
  IF c.p = 0 THEN Fail
  ELSE LET ty == ColType(t, Skip(t, c.p)) IN
       IF ty.p = 0 THEN Fail
       ELSE LET s == Settings("col", t, Skip(t, ty.p))
                e == EndOf(s, ty.p)
            IN [p |-> e, n |-> [sp |-> Span(i, e), name |-> c.n, type |-> ty.n, set |-> Opt(s)]]

(* -------------------------------- tables ------------------------------- *)
RECURSIVE TableBody(_, _, _)
TableBody(t, i, acc) ==
  LET j == Skip(t, i)
      c == Column(t, j)
  IN IF c.p # 0 THEN TableBody(t, c.p, [acc EXCEPT !.cols = Append(@, c.n)])
     ELSE LET n == NoteDecl(t, j) IN
          IF n.p # 0 THEN TableBody(t, n.p, [acc EXCEPT !.note = <<n.n>>])
          ELSE LET x == IndexesDecl(t, j)
               IN IF x.p # 0 THEN TableBody(t, x.p, [acc EXCEPT !.idx = <<x.n>>])
                  ELSE [p |-> j, n |-> acc]

TableDecl(t, i) ==
  LET k == Kw(t, i, "table ")
      d == IF k = 0 THEN Fail ELSE DeclIdent(t, Skip(t, k))
  IN IF d.p = 0 THEN Fail
     ELSE LET ak == Kw(t, Skip(t, d.p), "as ")
              al == IF ak = 0 THEN Fail ELSE Ident(t, Skip(t, ak))
              p1 == EndOf(al, d.p)
              s == Settings("attr", t, Skip(t, p1))
              b == Skip(t, EndOf(s, p1))
          IN IF Ch(t, b) # "{" THEN Fail
             ELSE LET m == TableBody(t, b + 1, [cols |-> <<>>, note |-> <<>>, idx |-> <<>>])
                  IN IF Ch(t, m.p) # "}" THEN Fail
                     ELSE [p |-> m.p + 1,
                           n |-> [k |-> "table", sp |-> Span(i, m.p + 1), ident |-> d.n, alias |-> Opt(al),
                                  set |-> Opt(s), cols |-> m.n.cols, note |-> m.n.note, idx |-> m.n.idx]]

(* --------------------------- groups and project ------------------------- *)
RECURSIVE GroupBody(_, _, _)
GroupBody(t, i, acc) ==
  LET j == Skip(t, i)
      n == NoteDecl(t, j)
  IN IF n.p # 0 THEN GroupBody(t, n.p, [acc EXCEPT !.note = <<n.n>>])
     ELSE LET d == DeclIdent(t, j)
          IN IF d.p # 0 THEN GroupBody(t, d.p, [acc EXCEPT !.items = Append(@, d.n)])
             ELSE [p |-> j, n |-> acc]

GroupDecl(t, i) ==
  LET k == Kw(t, i, "tablegroup ")
      d == IF k = 0 THEN Fail ELSE Ident(t, Skip(t, k))
  IN IF d.p = 0 THEN Fail
     ELSE LET s == Settings("attr", t, Skip(t, d.p))
              b == Skip(t, EndOf(s, d.p))
          IN IF Ch(t, b) # "{" THEN Fail
             ELSE LET m == GroupBody(t, b + 1, [items |-> <<>>, note |-> <<>>])
                  IN IF Ch(t, m.p) # "}" THEN Fail
                     ELSE [p |-> m.p + 1,
                           n |-> [k |-> "group", sp |-> Span(i, m.p + 1), name |-> d.n, set |-> Opt(s),
                                  items |-> m.n.items, note |-> m.n.note]]

RECURSIVE ProjectBody(_, _, _)
ProjectBody(t, i, acc) ==
  LET j == Skip(t, i)
      n == NoteDecl(t, j)
  IN IF n.p # 0 THEN ProjectBody(t, n.p, [acc EXCEPT !.note = <<n.n>>])
     ELSE LET r == Prop(t, j)
          IN IF r.p # 0 THEN ProjectBody(t, r.p, [acc EXCEPT !.props = Append(@, r.n)])
             ELSE [p |-> j, n |-> acc]

ProjectDecl(t, i) ==
  LET k == Kw(t, i, "project ")
      d == IF k = 0 THEN Fail ELSE Ident(t, Skip(t, k))
  IN IF d.p = 0 THEN Fail
     ELSE LET b == Skip(t, d.p) IN
          IF Ch(t, b) # "{" THEN Fail
          ELSE LET m == ProjectBody(t, b + 1, [props |-> <<>>, note |-> <<>>])
               IN IF Ch(t, m.p) # "}" THEN Fail
                  ELSE [p |-> m.p + 1,
                        n |-> [k |-> "project", sp |-> Span(i, m.p + 1), name |-> d.n,
                               props |-> m.n.props, note |-> m.n.note]]

(* One top-level declaration.                                              *)
Decl(t, i) ==
  LET c == ToLower(Ch(t, i)) IN
  CASE c = "p" -> ProjectDecl(t, i)
    [] c = "t" -> LET r == TableDecl(t, i) IN IF r.p # 0 THEN r ELSE GroupDecl(t, i)
    [] c = "e" -> EnumDecl(t, i)
    [] c = "r" -> RefDecl(t, i)
    [] c = "n" -> NoteDecl(t, i)
    [] OTHER -> Fail
=============================================================================
