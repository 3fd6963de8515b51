"""Random documents for the conformance checks.

A document is a model (plain dicts), turned into a list of tokens and separators, and the tokens into
text in some layout.  Nothing here decides what is right: the specification reads the text itself.
"""
import random

BUILTIN0 = ["box", "cidr", "circle", "inet", "line", "lseg", "macaddr", "macaddr8", "money", "path", "pg_lsn",
            "pg_snapshot", "point", "polygon", "tsquery", "tsvector", "smallserial", "serial2", "serial", "serial4",
            "bigserial", "serial8", "smallint", "int2", "integer", "int", "int4", "bigint", "int8", "real", "float4",
            "float8", "bool", "boolean", "bytea", "date", "text", "uuid", "json", "jsonb", "xml",
            "double precision", "time without time zone", "timestamp without time zone"]
BUILTIN1 = ["bit", "varbit", "bit varying", "char", "character", "varchar", "character varying", "time", "timetz",
            "time with time zone", "timestamp", "timestamptz", "timestamp with time zone"]
BUILTIN2 = ["decimal", "numeric"]
SYN = [["bit varying", "varbit"], ["char", "character"], ["varchar", "character varying"], ["smallserial", "serial2"],
       ["serial", "serial4"], ["bigserial", "serial8"], ["smallint", "int2"], ["integer", "int", "int4"],
       ["bigint", "int8"], ["real", "float4"], ["double precision", "float8"], ["bool", "boolean"],
       ["time", "time without time zone"], ["timetz", "time with time zone"],
       ["timestamp", "timestamp without time zone"], ["timestamptz", "timestamp with time zone"],
       ["decimal", "numeric"]]
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ACTIONS = ["no action", "cascade", "restrict", "set null", "set default"]
ITYPES = ["btree", "gin", "gist", "hash"]
RELS = ["<", ">", "-", "<>"]
CHUNKS = ["a", "Z", " ", "  ", "'", '"', "`", "\\", "//", "/*", "*/", "\n", "\r\n", "\t", "#", "[", "]", "{", "}", "(",
          ")", ",", ":", ".", "é", "ß", "日本", "😀", "\u0301", "\u00a0", "0", "42", "x y", "null", "true", "Table t {",
          "\\'", "''", "-- ", "%", "$1", "\u200b", "İ", "ﬀ", "𝔘", "\x00", "\x0b", "\ufeff"]


def is_word(s):
    return bool(s) and s[0] in PLAIN and all(c in PLAIN or c in "0123456789_" for c in s)


class Gen:
    def __init__(self, rng, size=4, wild=0.25):
        self.r, self.size, self.wild = rng, size, wild
        self.n = 0

    # ------------------------------ small parts ------------------------------
    def word(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice(["a", "b", "c", "d", "x", "y", "z", "id", "t", "u", "v", "k", "A", "B", "Id", "ID"])
        if k < 0.7:
            return r.choice(["note", "Note", "ref", "Ref", "as", "table", "Table", "indexes", "enum", "project", "public",
                             "null", "true", "false", "pk", "int", "text", "nullx", "true1", "e", "s", "database_type",
                             "unique", "TableGroup", "notes", "tablegroup_x", "a_", "a__b", "x9", "refs", "public2"])
        return r.choice(PLAIN) + "".join(r.choice(PLAIN + "0123456789_") for _ in range(r.choice([0, 1, 2, 5, 9, 40])))

    def wildtext(self, ban, lo=0, hi=6):
        r = self.r
        while True:
            s = "".join(r.choice(CHUNKS) for _ in range(r.randint(lo, hi)))
            if not any(b in s for b in ban):
                return s

    def name(self):
        if self.r.random() < self.wild:
            s = self.wildtext(['"'], 1, 4).lstrip(" \t\r\n")
            return s or "q"
        return self.word()

    def fresh(self, used, f=None):
        for _ in range(30):
            s = (f or self.name)()
            if s not in used:
                used.add(s)
                return s
        self.n += 1
        s = "n%d" % self.n
        used.add(s)
        return s

    def string(self, hi=5):
        r = self.r
        if r.random() < 0.6:
            return ("'", r.choice(["x", "", "a b", "it is", "n", "5", "true", "PostgreSQL", "long " * 8, "é", "日本語"]))
        if r.random() < 0.6:
            return ("'", self.wildtext(["'"], 0, hi).lstrip(" \t\r\n"))
        return ("'''", self.wildtext(["'''"], 0, hi).strip(" \t\r\n'"))

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return str(r.choice([0, 1, 2, 5, 7, 10, 42, 127, 255, 1000, 32767, 2147483647, 9223372036854775807]))
        if k < 0.7:
            return "0" * r.randint(1, 3) + str(r.randint(0, 999))
        return "%d.%s" % (r.randint(0, 9999), "".join(r.choice("0123456789") for _ in range(r.randint(0, 6))))

    def value(self):
        """('kind', text)"""
        r = self.r
        k = r.randint(0, 9)
        if k < 3:
            return ("str",) + self.string()
        if k == 3:
            return ("raw", self.number())
        if k == 4:
            return ("raw", r.choice(["true", "false", "null"]))
        if k == 5:
            return ("raw", r.choice(["#fff", "#AbCdEf", "#012", "#a1b2c3"]))
        if k == 6:
            return ("raw", "`" + self.wildtext(["`"], 0, 4).lstrip(" \t\r\n") + "`")
        if k == 7:
            return ("raw", '"' + self.wildtext(['"'], 0, 3).lstrip(" \t\r\n") + '"')
        return ("raw", r.choice(["word", "two words", "nullable", "trueish", "falsey x", "a_b c1 d", "no action", "cascade", "btree"]))

    def settings(self, fixed=(), n=None):
        """free settings: distinct keys"""
        r = self.r
        used = {k for k, _ in fixed}
        out = list(fixed)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if n is None else n):
            k = r.choice(["color", "headercolor", "k", "x y", "note", "a b c", "K", "z9", "on_delete", "ref_x", "nulls", "pks", "types", "uniq"])
            if k in used:
                continue
            used.add(k)
            if k == "note":
                out.append((k, ("str",) + self.string()))
            else:
                out.append((k, r.choice([None, self.value(), self.value()])))
        r.shuffle(out)
        return out

    # --------------------------------- types ---------------------------------
    def type_(self, enums=()):
        r = self.r
        k = r.random()
        t = {"schema": None, "args": [], "arr": [], "quote": False, "inside": False}
        if enums and k < 0.2:
            e = r.choice(enums)
            t["schema"] = e["schema"] if e["schema"] is not None else r.choice([None, None, "public"])
            t["base"] = e["name"]
            t["quote"] = not is_word(e["name"])
        elif k < 0.6:
            t["base"] = r.choice(["int", "integer", "text", "varchar", "bool", "timestamp", "uuid", "bigint", "smallint", "decimal"])
        elif k < 0.9:
            t["base"] = r.choice(BUILTIN0 + BUILTIN1 + BUILTIN2)
        else:
            t["base"] = r.choice(["custom", "Mood", "string", "INT", "my type", "x_y", "geography"])
        b = t["base"]
        if b in BUILTIN1 and r.random() < 0.6:
            t["args"] = [str(r.choice([1, 2, 3, 5, 10, 255]))]
        if b in BUILTIN2 and r.random() < 0.6:
            t["args"] = [str(r.randint(1, 20)), str(r.randint(0, 9))]
        if r.random() < 0.12:
            t["arr"] = [r.choice(["", "3", "10"]) for _ in range(r.choice([1, 1, 2]))]
        if not is_word(b):
            t["quote"] = True
        elif r.random() < 0.15:
            t["quote"] = True
        t["inside"] = t["quote"] and r.random() < 0.5
        return t

    def same_type(self, t):
        """the same type, maybe under another name or spelling"""
        r = self.r
        u = dict(t, args=list(t["args"]), arr=list(t["arr"]))
        for s in SYN:
            if t["schema"] is None and t["base"] in s and r.random() < 0.5:
                u["base"] = r.choice(s)
        u["quote"] = not is_word(u["base"]) or r.random() < 0.15
        u["inside"] = u["quote"] and r.random() < 0.5
        return u

    def default_for(self, t, enums):
        r = self.r
        b = t["base"]
        if t["schema"] is None:
            if b in ("smallint", "int2"):
                return ("raw", str(r.choice([0, 1, 32767])))
            if b in ("int", "integer", "int4"):
                return ("raw", str(r.choice([0, 1, 32768, 2147483647])))
            if b in ("bigint", "int8"):
                return ("raw", str(r.choice([0, 2147483648, 9223372036854775807])))
            if b in ("bool", "boolean"):
                return ("raw", r.choice(["true", "false"]))
            if b in ("char", "character", "bit") and t["args"]:
                n = int(t["args"][0])
                if n < 20:
                    return ("str", "'", "".join(r.choice("abé😀日") for _ in range(n)))
            if b in ("varchar", "character varying", "varbit", "bit varying") and t["args"]:
                n = int(t["args"][0])
                if n < 20:
                    return ("str", "'", "".join(r.choice("abé😀日") for _ in range(r.randint(0, n))))
        for e in enums:
            if e["name"] == b and (e["schema"] or "public") == (t["schema"] or "public") and e["vals"] and b not in BUILTIN0 + BUILTIN1 + BUILTIN2:
                v = r.choice(e["vals"])["name"]
                if is_word(v) and v not in ("true", "false", "null"):
                    return r.choice([("raw", v), ("str", "'", v)])
                if "'" not in v:
                    return ("str", "'", v)
        return ("raw", "`now()`")

    # ------------------------------ declarations -----------------------------
    def end(self, t, cols):
        r = self.r
        ways = [(t["schema"], t["name"])]
        if t["schema"] in (None, "public"):
            ways += [("public", t["name"]), (None, t["name"])]
        if t["alias"]:
            ways += [(None, t["alias"])] * 2
        s, n = r.choice(ways)
        return {"schema": s, "table": n, "cols": list(cols), "paren": len(cols) != 1 or r.random() < 0.1}

    def doc(self):
        r = self.r
        enums, tables, refs, groups = [], [], [], []
        ids = set()
        for _ in range(r.choice([0, 1, 1, 2])):
            s = r.choice([None, None, None, "s", "public", "auth", "S"])
            n = self.fresh(set(), lambda: r.choice(["e", "mood", "Mood", "status", "st", self.word()]))
            if (s or "public", n) in ids or "." in n:
                continue
            ids.add((s or "public", n))
            used = set()
            vals = [{"name": self.fresh(used), "set": self.settings([("note", ("str",) + self.string())]) if r.random() < 0.3 else None}
                    for _ in range(r.choice([0, 1, 2, 3, 6]))]
            enums.append({"k": "enum", "schema": s, "name": n, "vals": vals})
        tids, aliases = set(), set()
        for _ in range(r.randint(1, self.size)):
            s = r.choice([None, None, None, "s", "public", "auth", "S"])
            n = self.name()
            if (s or "public", n) in tids:
                continue
            tids.add((s or "public", n))
            alias = None
            if r.random() < 0.35:
                alias = self.fresh(aliases)
            tables.append({"k": "table", "schema": s, "name": n, "alias": alias, "set": self.settings() if r.random() < 0.3 else None,
                           "cols": [], "idx": None, "note": [], "shuffle": r.random() < 0.2})
        # an alias that hides another table's bare name is legal, but makes ends ambiguous to write
        bare = {t["name"] for t in tables}
        for t in tables:
            if t["alias"] in bare:
                t["alias"] = None
        for t in tables:
            used = set()
            pk = r.random()
            for k in range(r.choice([1, 2, 2, 3, 4, 7])):
                ty = self.type_(enums)
                a = []
                if k == 0 and pk < 0.5:
                    ty["arr"] = []
                    a.append((r.choice(["pk", "primary key"]), None))
                elif r.random() < 0.2:
                    a.append((r.choice(["unique"]), None))
                if r.random() < 0.2:
                    a.append(("increment", None))
                x = r.random()
                isnull = False
                if x < 0.15:
                    a.append(("not null", None))
                elif x < 0.35 and not (k == 0 and pk < 0.5):
                    a.append(("null", None))
                    isnull = True
                if r.random() < 0.25:
                    d = self.default_for(ty, enums)
                    if isnull and r.random() < 0.3:
                        d = ("raw", "null")
                    a.append(("default", d))
                if r.random() < 0.2:
                    a = self.settings(a)
                else:
                    r.shuffle(a)
                t["cols"].append({"name": self.fresh(used), "type": ty, "set": a if a or r.random() < 0.05 else None})
            if r.random() < 0.25:
                t["note"].append((r.random() < 0.5,) + self.string())
            if r.random() < 0.4:
                t["idx"] = self.indexes(t, 0.5 <= pk < 0.7)
        taken = set()
        for _ in range(r.randint(0, self.size + 1)):
            x = self.ref(tables, taken)
            if x:
                refs.append(x)
        gn = set()
        for _ in range(r.choice([0, 0, 1, 2])):
            its = []
            for t in r.sample(tables, r.randint(0, len(tables))):
                e = self.end(t, ["x"])
                its.append((e["schema"], e["table"]))
            groups.append({"k": "group", "name": self.fresh(gn), "set": self.settings() if r.random() < 0.3 else None, "items": its,
                           "note": [(r.random() < 0.5,) + self.string()] if r.random() < 0.3 else []})
        props = [(k, v) for k, v in self.settings(n=r.choice([0, 1, 3])) if v is not None and v[1][:1] != '"' and k != "note"]
        if r.random() < 0.7:
            props.append(("database_type", ("str", "'", r.choice(["PostgreSQL", "MySQL", "Generic", ""]))))
        pr = [{"k": "project", "name": self.name(), "props": props, "note": [(r.random() < 0.5,) + self.string()] if r.random() < 0.3 else []}]
        notes = [{"k": "note", "val": (r.random() < 0.5,) + self.string()} for _ in range(r.choice([0, 0, 0, 1]))]
        rest = enums + tables + refs + groups + notes
        if r.random() < 0.6:
            r.shuffle(rest)
            k = r.randint(0, len(rest))
            return rest[:k] + pr + rest[k:]
        return pr + rest

    def indexes(self, t, pk):
        r = self.r
        names = [c["name"] for c in t["cols"]]
        uniq = [{c["name"]} for c in t["cols"] if c["set"] and any(k == "unique" for k, _ in plain(c["set"]))]
        defs, seen = [], []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            n = min(len(names), r.choice([1, 1, 2, 3]))
            cols = [("col", c) for c in r.sample(names, n)]
            if r.random() < 0.2:
                cols.insert(r.randint(0, len(cols)), ("expr", self.wildtext(["`"], 1, 3).strip() or "id*2"))
            if cols in seen:
                continue
            seen.append(cols)
            key = {c for _, c in cols}
            a = []
            k = r.random()
            if pk and all(x == "col" for x, _ in cols):
                ok = True
                for c in t["cols"]:
                    if c["name"] in key:
                        c["type"]["arr"] = []
                        if c["set"]:
                            c["set"] = [x for x in c["set"] if x[0] != "null" and x[0] != "default"]
                a.append(("pk", None))
                pk = False
            elif k < 0.3 and not any(key <= u for u in uniq):
                uniq.append(key)
                a.append(("unique", None))
            elif k < 0.55:
                a.append(("type", ("raw", r.choice(ITYPES))))
            if r.random() < 0.3:
                a.append(("name", ("str",) + self.string()))
            if r.random() < 0.2:
                a = self.settings(a)
            defs.append({"cols": cols, "paren": len(cols) > 1 or r.random() < 0.2, "set": a if a else None})
        return defs

    def keys_of(self, t):
        out = []
        for c in t["cols"]:
            if c["set"] and any(k in ("pk", "primary key", "unique") for k, _ in plain(c["set"])):
                out.append([c["name"]])
        for d in t["idx"] or []:
            if d["set"] and any(k in ("pk", "unique") for k, _ in d["set"]) and all(x == "col" for x, _ in d["cols"]):
                out.append([c for _, c in d["cols"]])
        return out

    def ref(self, tables, taken):
        """a relationship onto an existing key; columns for it are added where needed"""
        r = self.r
        cand = [(t, k) for t in tables for k in self.keys_of(t)]
        if not cand:
            return None
        t, key = r.choice(cand)
        rel = r.choice([">", ">", "<", "-", "<>"])
        key = list(key)
        r.shuffle(key)
        u = r.choice(tables)
        types = [next(c["type"] for c in t["cols"] if c["name"] == n) for n in key]
        if rel == "<>":
            other = [(w, k) for w, k in cand if len(k) == len(key) and not (w is t and set(k) == set(key))
                     and [(next(c["type"] for c in w["cols"] if c["name"] == n)["base"]) for n in k] == [x["base"] for x in types]]
            if not other:
                return None
            u, cols = r.choice(other)
            cols = list(cols)
        else:
            used = {c["name"] for c in u["cols"]}
            cols = []
            for ty in types:
                n = self.fresh(used)
                u["cols"].append({"name": n, "type": self.same_type(ty), "set": None})
                cols.append(n)
        if rel == "<>" :
            a, b = self.end(u, cols), self.end(t, key)
            mark = ("mm", frozenset([(id(u), frozenset(cols)), (id(t), frozenset(key))]))
            if mark in taken:
                return None
            taken.add(mark)
        elif rel == "<":
            a, b = self.end(t, key), self.end(u, cols)
        else:
            a, b = self.end(u, cols), self.end(t, key)
        inline = len(cols) == 1 and r.random() < 0.5
        if inline and rel in (">", "-", "<>"):
            c = next(c for c in u["cols"] if c["name"] == cols[0])
            c["set"] = (c["set"] or [])
            c["set"].insert(r.randint(0, len(c["set"])), ("@ref", (rel, b)))
            return None
        if inline and rel == "<":
            c = next(c for c in t["cols"] if c["name"] == key[0])
            c["set"] = (c["set"] or [])
            c["set"].append(("@ref", (rel, b)))
            return None
        a["paren"] = a["paren"] or len(a["cols"]) != 1
        st = None
        if r.random() < 0.4:
            st = [(k, ("raw", r.choice(ACTIONS))) for k in ("update", "delete") if r.random() < 0.6]
            if r.random() < 0.3:
                st = self.settings(st)
        return {"k": "ref", "name": self.name() if r.random() < 0.4 else None, "block": r.random() < 0.4, "lhs": a, "rel": rel, "rhs": b, "set": st}


def plain(s):
    return [x for x in s if x[0] != "@ref"]


# --------------------------------- to tokens ---------------------------------
# separators: 'o' optional, 'r' at least one blank or comment, 'k' a space and then anything, 'l' not a lone space
class Toks:
    def __init__(self):
        self.t = []

    def kw(self, s):
        self.t.append(("kw", s))

    def raw(self, s):
        self.t.append(("raw", s))

    def id(self, s):
        self.t.append(("id", s))

    def sep(self, c):
        self.t.append(("sep", c))


def t_value(o, v):
    if v[0] == "str":
        o.raw(v[1] + v[2] + v[1])
    else:
        o.raw(v[1])


def t_name(o, s, n):
    if s is not None:
        o.id(s)
        o.sep("o")
        o.raw(".")
        o.sep("o")
    o.id(n)


def t_list(o, items, f):
    o.sep("o")
    for k, x in enumerate(items):
        if k:
            o.sep("o")
            o.raw(",")
            o.sep("o")
        f(x)
    o.sep("o")


def t_end(o, e):
    t_name(o, e["schema"], e["table"])
    o.sep("o")
    o.raw(".")
    o.sep("o")
    if e["paren"] or len(e["cols"]) != 1:
        o.raw("(")
        t_list(o, e["cols"], o.id)
        o.raw(")")
    else:
        o.id(e["cols"][0])


def t_attr(o, a):
    k, v = a
    if k == "@ref":
        o.raw("ref")
        o.sep("o")
        o.raw(":")
        o.sep("o")
        o.raw(v[0])
        o.sep("o")
        t_end(o, v[1])
        return
    o.raw(k)
    if v is not None:
        o.sep("o")
        o.raw(":")
        o.sep("o")
        t_value(o, v)


def t_set(o, s, first="o"):
    if s is None:
        return
    o.sep(first)
    o.raw("[")
    t_list(o, s, lambda a: t_attr(o, a))
    o.raw("]")


def t_note(o, n):
    o.kw("Note")
    o.sep("o")
    o.raw("{" if n[0] else ":")
    o.sep("o")
    o.raw(n[1] + n[2] + n[1])
    if n[0]:
        o.sep("o")
        o.raw("}")


def type_text(t, rng=None):
    s = ""
    if t["schema"] is not None:
        s = (t["schema"] if is_word(t["schema"]) else '"%s"' % t["schema"]) + "."
    args = "(" + ",".join(t["args"]) + ")" if t["args"] else ""
    arr = "".join("[%s]" % a for a in t["arr"])
    if t["quote"]:
        return s + '"' + t["base"] + args + (arr if t["inside"] else "") + '"' + ("" if t["inside"] else arr)
    return s + t["base"] + args + arr


def t_decl(o, d):
    k = d["k"]
    if k == "project":
        o.kw("Project ")
        o.sep("k")
        o.id(d["name"])
        o.sep("o")
        o.raw("{")
        o.sep("o")
        for key, v in d["props"]:
            o.raw(key)
            o.sep("o")
            o.raw(":")
            o.sep("o")
            t_value(o, v)
            o.sep("l")
        for n in d["note"]:
            t_note(o, n)
            o.sep("o")
        o.raw("}")
    elif k == "enum":
        o.kw("Enum ")
        o.sep("k")
        t_name(o, d["schema"], d["name"])
        o.sep("o")
        o.raw("{")
        o.sep("o")
        for v in d["vals"]:
            o.id(v["name"])
            t_set(o, v["set"])
            o.sep("r")
        o.raw("}")
    elif k == "table":
        o.kw("Table ")
        o.sep("k")
        t_name(o, d["schema"], d["name"])
        if d["alias"] is not None:
            o.sep("r")
            o.kw("as ")
            o.sep("k")
            o.id(d["alias"])
        t_set(o, d["set"])
        o.sep("o")
        o.raw("{")
        o.sep("o")
        parts = [("c", c) for c in d["cols"]]
        extra = [("n", n) for n in d["note"]] + ([("i", d["idx"])] if d["idx"] is not None else [])
        if d.get("shuffle"):
            for k2, x in enumerate(extra):
                parts.insert((k2 * 7 + len(d["cols"])) % (len(parts) + 1), x)
        else:
            parts += extra
        for kind, x in parts:
            if kind == "c":
                o.id(x["name"])
                o.sep("r")
                o.raw(type_text(x["type"]))
                t_set(o, x["set"], "r")
                o.sep("r")
            elif kind == "n":
                t_note(o, x)
                o.sep("r")
            else:
                o.kw("Indexes")
                o.sep("o")
                o.raw("{")
                o.sep("o")
                for y in x:
                    if y["paren"] or len(y["cols"]) != 1:
                        o.raw("(")
                        t_list(o, y["cols"], lambda c: o.id(c[1]) if c[0] == "col" else o.raw("`" + c[1] + "`"))
                        o.raw(")")
                    else:
                        c = y["cols"][0]
                        o.id(c[1]) if c[0] == "col" else o.raw("`" + c[1] + "`")
                    t_set(o, y["set"])
                    o.sep("r")
                o.raw("}")
                o.sep("r")
        o.raw("}")
    elif k == "ref":
        o.kw("Ref")
        if d["name"] is not None:
            o.sep("r")
            o.id(d["name"])
        o.sep("o")
        o.raw("{" if d["block"] else ":")
        o.sep("o")
        t_end(o, d["lhs"])
        o.sep("o")
        o.raw(d["rel"])
        o.sep("o")
        t_end(o, d["rhs"])
        t_set(o, d["set"])
        if d["block"]:
            o.sep("o")
            o.raw("}")
    elif k == "group":
        o.kw("TableGroup ")
        o.sep("k")
        o.id(d["name"])
        t_set(o, d["set"])
        o.sep("o")
        o.raw("{")
        o.sep("o")
        for s, n in d["items"]:
            t_name(o, s, n)
            o.sep("r")
        for n in d["note"]:
            t_note(o, n)
            o.sep("o")
        o.raw("}")
    elif k == "note":
        t_note(o, d["val"])


def tokens(doc):
    o = Toks()
    o.sep("o")
    for d in doc:
        t_decl(o, d)
        o.sep("r")
    return o.t


# ---------------------------------- layouts ----------------------------------
COMMENTS = ["// c\n", "//\n", "// é😀 '\n", "// Table t { \" ` \n", "/* c */", "/**/", "/* \n * x\n */", "/* // */", "/***/",
            "/* ' \" ` */", "// /*\n", "/* Ref: a.b > c.d */", "// ]})\r\n", "/* é😀 */", "//// x\n", "/*/ */", "/* * / **/", "// \\\n", "// c\r", "//\r"]
BLANKS = [" ", "\n", "\t", "\r\n", "  ", "\n\n  ", " \t", "\r"]


def layout(rng, style):
    """style: plain | tight | random"""
    def sep(c):
        if style == "plain":
            return {"o": "", "r": " ", "k": "", "l": "\n"}[c]
        if style == "lines":
            return {"o": " ", "r": "\n", "k": "", "l": "\n"}[c]
        parts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            parts.append(rng.choice(BLANKS) if rng.random() < 0.7 else rng.choice(COMMENTS))
        s = "".join(parts)
        if c == "r" and not s:
            s = rng.choice(BLANKS + COMMENTS)
        if c == "l" and (s == "" or s == " "):
            s = rng.choice(["\n", "\r\n", "  ", "\t", "/**/"])
        return s
    return sep


def random_case(rng, s):
    k = rng.random()
    if k < 0.3:
        return s
    if k < 0.5:
        return s.lower()
    if k < 0.7:
        return s.upper()
    return "".join(rng.choice([c.lower(), c.upper()]) for c in s)


def text(toks, rng=None, style="lines", case=False, quote=0.0):
    sep = layout(rng, style)
    out = []
    for k, s in toks:
        if k == "sep":
            out.append(sep(s))
        elif k == "kw":
            out.append(random_case(rng, s) if case else s)
        elif k == "id":
            out.append('"%s"' % s if not is_word(s) or (quote and rng.random() < quote) else s)
        else:
            out.append(s)
    return "".join(out)


# ---------------------------------- faults -----------------------------------
def pick(r, xs):
    xs = list(xs)
    return r.choice(xs) if xs else None


def of(doc, k):
    return [d for d in doc if d["k"] == k]


def other_end(r, doc, t, cols):
    return Gen(r).end(t, cols)


def anylist(r, doc):
    """(owner, key) of some settings list in the document, created if need be"""
    c = []
    for d in doc:
        if d["k"] in ("table", "group", "ref"):
            c.append(d)
        if d["k"] == "enum":
            c += d["vals"]
        if d["k"] == "table":
            c += d["cols"] * 2
            c += (d["idx"] or [])
    return pick(r, c)


def inject(r, doc, kind):
    """change the document so that it (probably) has a fault of this kind; None if it does not apply"""
    g = Gen(r)
    T, E, G, R = of(doc, "table"), of(doc, "enum"), of(doc, "group"), of(doc, "ref")

    def put(d):
        doc.insert(r.randint(0, len(doc)), d)
        return doc

    def respell(s):
        return r.choice([None, "public"]) if s in (None, "public") else s

    if kind == "ProjectMissing":
        return [d for d in doc if d["k"] != "project"]
    if kind == "ProjectTwice":
        return put({"k": "project", "name": g.name(), "props": [], "note": []})
    if kind == "PropTwice":
        p = of(doc, "project")[0]
        if not p["props"]:
            p["props"].append(("k", ("raw", "1")))
        p["props"].insert(r.randint(0, len(p["props"])), (r.choice(p["props"])[0], ("str", "'", "again")))
        return doc
    if kind == "TableTwice" and T:
        t = r.choice(T)
        return put({"k": "table", "schema": respell(t["schema"]), "name": t["name"], "alias": None, "set": None,
                    "cols": [{"name": "q", "type": g.type_(), "set": None}], "idx": None, "note": []})
    if kind == "ColumnTwice" and T:
        t = r.choice(T)
        if t["cols"]:
            t["cols"].insert(r.randint(0, len(t["cols"])), {"name": r.choice(t["cols"])["name"], "type": g.type_(), "set": None})
            return doc
    if kind == "AliasTwice" and len(T) > 1:
        a, b = r.sample(T, 2)
        a["alias"] = a["alias"] or "al"
        b["alias"] = a["alias"]
        return doc
    if kind == "EnumTwice" and E:
        e = r.choice(E)
        return put({"k": "enum", "schema": respell(e["schema"]), "name": e["name"], "vals": []})
    if kind == "EnumValueTwice":
        e = pick(r, [e for e in E if e["vals"]])
        if e:
            e["vals"].insert(r.randint(0, len(e["vals"])), {"name": r.choice(e["vals"])["name"], "set": None})
            return doc
    if kind == "GroupTwice" and G:
        return put({"k": "group", "name": r.choice(G)["name"], "set": None, "items": [], "note": []})
    if kind == "GroupItemTwice" and T:
        t = r.choice(T)
        x = pick(r, G)
        if not x:
            x = {"k": "group", "name": "gg", "set": None, "items": [], "note": []}
            put(x)
        for _ in range(2):
            e = g.end(t, ["x"])
            x["items"].insert(r.randint(0, len(x["items"])), (e["schema"], e["table"]))
        return doc
    if kind == "KeyTwice":
        x = anylist(r, doc)
        if x is not None:
            s = x["set"] or []
            k = pick(r, [k for k, _ in plain(s) if k not in ("type", "update", "delete")]) or r.choice(["k", "x y"])
            if k in [y for y, _ in s]:
                s.insert(r.randint(0, len(s)), (k, None))
            else:
                s.insert(r.randint(0, len(s)), (k, None))
                s.insert(r.randint(0, len(s)), (k, ("raw", "1")))
            x["set"] = s
            return doc
    if kind == "PkTwice" and T:
        t = r.choice(T)
        for _ in range(2):
            c = r.choice(t["cols"])
            if r.random() < 0.6:
                c["set"] = [x for x in (c["set"] or []) if x[0] not in ("pk", "primary key")] + [("pk", None)]
            else:
                t["idx"] = (t["idx"] or []) + [{"cols": [("col", c["name"])], "paren": False, "set": [("pk", None)]}]
        return doc
    if kind in ("PkNull", "PkArray", "NullAndNotNull") and T:
        t = r.choice(T)
        c = r.choice(t["cols"])
        s = [x for x in (c["set"] or []) if x[0] not in ("pk", "primary key", "null", "not null")]
        if kind != "NullAndNotNull":
            s.append((r.choice(["pk", "primary key"]), None))
        if kind == "PkArray":
            c["type"]["arr"] = c["type"]["arr"] or [r.choice(["", "2"])]
        else:
            s.append(("null", None))
        if kind == "NullAndNotNull":
            s.append(("not null", None))
        r.shuffle(s)
        c["set"] = s
        return doc
    if kind in ("IndexEmpty", "IndexColumn", "IndexSettings", "UniqueTwice", "IndexTwice") and T:
        t = r.choice(T)
        t["idx"] = t["idx"] or []
        c = r.choice(t["cols"])["name"]
        ds = []
        if kind == "IndexEmpty":
            ds = [{"cols": [], "paren": True, "set": None}]
        elif kind == "IndexColumn":
            cols = [("col", r.choice(["nosuch", c.swapcase() + "_", c + " "]))]
            if r.random() < 0.5:
                cols.insert(r.randint(0, 1), ("col", c))
            ds = [{"cols": cols, "paren": True, "set": r.choice([None, [("unique", None)]])}]
        elif kind == "IndexSettings":
            s = r.sample([("pk", None), ("unique", None), ("type", ("raw", r.choice(ITYPES)))], r.choice([2, 2, 3]))
            ds = [{"cols": [("col", c)], "paren": False, "set": s}]
        elif kind == "UniqueTwice":
            cols = [("col", x["name"]) for x in r.sample(t["cols"], min(len(t["cols"]), r.choice([1, 2, 3])))]
            cols2 = list(cols)
            r.shuffle(cols2)
            ds = [{"cols": cols, "paren": True, "set": [("unique", None)]}, {"cols": cols2, "paren": True, "set": [("unique", None), ("name", ("str", "'", "n"))]}]
        else:
            cols = [("col", x["name"]) for x in r.sample(t["cols"], min(len(t["cols"]), r.choice([1, 2, 3])))]
            s = r.choice([None, [("type", ("raw", r.choice(ITYPES)))]])
            ds = [{"cols": cols, "paren": True, "set": s}, {"cols": cols, "paren": True, "set": s and s + [("name", ("str", "'", "n"))]}]
        for d in ds:
            t["idx"].insert(r.randint(0, len(t["idx"])), d)
        return doc
    if kind in ("ArgCount", "ArgValue") and T:
        t = r.choice(T)
        b = r.choice(BUILTIN0 + BUILTIN1 + BUILTIN2)
        want = 1 if b in BUILTIN1 else 2 if b in BUILTIN2 else 0
        n = r.choice([k for k in (1, 2, 3) if k != want]) if kind == "ArgCount" else max(want, 1)
        args = [str(r.randint(1, 9)) for _ in range(n)]
        if kind == "ArgValue":
            args[r.randint(0, n - 1)] = r.choice(["'x'", "1.5", "true", "null", "`e`", "#fff"])
        r.choice(t["cols"])["type"].update(schema=None, base=b, args=args, quote=not is_word(b), inside=True)
        return doc
    if kind in ("DefaultValue", "DefaultRange", "DefaultNull", "EnumSchema", "EnumMissing", "EnumValueMissing") and T:
        t = r.choice(T)
        c = r.choice(t["cols"])
        s = [x for x in (c["set"] or []) if x[0] not in ("default", "@ref")]
        ty = c["type"]
        if kind == "DefaultValue":
            if r.random() < 0.5:
                ty.update(schema=None, base=r.choice(["char", "varchar", "bit", "varbit", "character", "character varying", "bit varying"]), args=["3"], arr=[])
                ty["quote"] = not is_word(ty["base"])
                v = ("str", "'", "".join(r.choice("abé😀") for _ in range(4)))
            else:
                v = ("raw", r.choice(["true", "false"]))
                if ty["base"] in ("bool", "boolean"):
                    ty["base"] = "text"
        elif kind == "DefaultRange":
            ty.update(schema=None, base=r.choice(["smallint", "int2", "int", "integer", "int4"]), args=[], quote=False)
            v = ("raw", r.choice(["2147483648", "9223372036854775807", "4294967297"]))
        elif kind == "DefaultNull":
            s = [x for x in s if x[0] != "null"]
            v = ("raw", "null")
        else:
            if kind == "EnumSchema":
                ty.update(schema="nosuch", base="e", args=[], quote=False)
            elif kind == "EnumMissing":
                ty.update(schema=r.choice([None, "public"]), base="nosuch", args=[], quote=False)
            else:
                e = pick(r, E)
                if not e:
                    return None
                ty.update(schema=e["schema"], base=e["name"], args=[], quote=not is_word(e["name"]), inside=True)
            v = r.choice([("str", "'", "no such value"), ("raw", "nosuch"), ("raw", "77")])
        s.insert(r.randint(0, len(s)), ("default", v))
        c["set"] = s
        return doc
    if kind in ("GroupItemMissing",):
        x = pick(r, G)
        if not x:
            x = {"k": "group", "name": "gg", "set": None, "items": [], "note": []}
            put(x)
        bad = [(None, "nosuch"), ("nosuch", "t"), ("public", "nosuch")]
        for t in T:
            if t["alias"]:
                bad.append((t["schema"] or "public", t["alias"]))
            bad.append(("nosuch", t["name"]))
            bad.append((t["schema"], t["name"].swapcase() + "_"))
        x["items"].insert(r.randint(0, len(x["items"])), r.choice(bad))
        return doc
    if kind in ("RefSchema", "RefTable", "RefColumn", "RefArity", "RefType", "RefKey", "RefConflict") and T:
        ends = [(d, "lhs") for d in R] + [(d, "rhs") for d in R]
        inl = [v for t in T for c in t["cols"] for k, v in (c["set"] or []) if k == "@ref"]
        if not ends and not inl:
            return None
        if kind in ("RefSchema", "RefTable", "RefColumn", "RefArity", "RefKey"):
            pool = [d[k] for d, k in ends] + [v[1] for v in inl]
            e = r.choice(pool)
            if kind == "RefSchema":
                e["schema"] = "nosuch"
            elif kind == "RefTable":
                al = [t["alias"] for t in T if t["alias"]]
                if al and r.random() < 0.5:
                    e["schema"], e["table"] = r.choice(["public", "s"]), r.choice(al)
                else:
                    e["schema"], e["table"] = r.choice([None, "public"]), "nosuch"
            elif kind == "RefColumn":
                e["cols"][r.randint(0, len(e["cols"]) - 1)] = "nosuch"
            elif kind == "RefArity":
                e["cols"].append(r.choice(r.choice(T)["cols"])["name"])
            else:
                t = r.choice(T)
                e2 = g.end(t, [r.choice(t["cols"])["name"]])
                e.update(e2)
            return doc
        if kind == "RefType":
            t = r.choice(T)
            c = r.choice(t["cols"])
            k = r.random()
            if k < 0.3:
                c["type"]["arr"] = c["type"]["arr"] + ["4"]
            elif k < 0.5 and c["type"]["args"]:
                c["type"]["args"][-1] = "99"
            else:
                c["type"] = g.type_()
            return doc
        if kind == "RefConflict":
            d = pick(r, R)
            if d:
                e = {"k": "ref", "name": None, "block": False, "set": None, "rel": d["rel"], "lhs": dict(d["lhs"]), "rhs": dict(d["rhs"])}
                if r.random() < 0.5:
                    e["lhs"], e["rhs"] = e["rhs"], e["lhs"]
                    e["rel"] = {"<": ">", ">": "<"}.get(e["rel"], e["rel"])
                return put(e)
            v = r.choice(inl)
            for t in T:
                for c in t["cols"]:
                    for k, w in c["set"] or []:
                        if k == "@ref" and w is v:
                            e = {"k": "ref", "name": None, "block": False, "set": None, "rel": v[0], "lhs": g.end(t, [c["name"]]), "rhs": dict(v[1])}
                            return put(e)
    return None


FAULTS = {
    "C12": ["ProjectMissing", "ProjectTwice", "PropTwice"],
    "C13": ["TableTwice", "ColumnTwice", "AliasTwice", "EnumTwice", "EnumValueTwice", "GroupTwice", "GroupItemTwice"],
    "C14": ["KeyTwice"],
    "C15": ["PkTwice", "PkNull", "PkArray", "NullAndNotNull"],
    "C16": ["IndexEmpty", "IndexColumn", "IndexSettings", "UniqueTwice", "IndexTwice"],
    "C17": ["ArgCount", "ArgValue"],
    "C18": ["DefaultValue", "DefaultRange", "DefaultNull", "EnumSchema", "EnumMissing", "EnumValueMissing"],
    "C19": ["GroupItemMissing", "RefSchema", "RefTable", "RefColumn"],
    "C20": ["RefArity", "RefType"],
    "C21": ["RefKey"],
    "C22": ["RefConflict"],
}
ALL_FAULTS = [f for fs in FAULTS.values() for f in fs]


def make(rng, size=None, fault=None, wild=None):
    """a document model, with a fault of some kind if asked for"""
    g = Gen(rng, size or rng.choice([1, 2, 3, 3, 4, 5]), rng.choice([0, 0, 0.1, 0.4]) if wild is None else wild)
    while True:
        d = g.doc()
        if fault:
            d2 = inject(rng, d, fault)
            if d2 is None:
                g.size += 1
                continue
            return d2
        return d


# --------------------------------- mutations ---------------------------------
JUNK = ["{", "}", "[", "]", "(", ")", ",", ":", ".", "-", "<", ">", "<>", "x", "'", '"', "`", "'''", "7", "1.5", "#fff", "null", "Note", "note:",
        "ref", "Ref:", "Table ", "as ", "//", "/*", "*/", "é", "😀", "_", "99999999999999999999", "Enum e {", "pk", "\n", " ", "\x00", "\u00a0", "'s'", "`e`", "indexes"]


def mutate(rng, toks):
    """a token list with some tokens gone, doubled, exchanged, replaced or inserted"""
    t = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not t:
            break
        k = rng.randrange(len(t))
        m = rng.randint(0, 5)
        if m == 0:
            del t[k]
        elif m == 1:
            t.insert(k, t[k])
        elif m == 2:
            j = rng.randrange(len(t))
            t[k], t[j] = t[j], t[k]
        elif m == 3:
            t[k] = ("raw", rng.choice(JUNK))
        elif m == 4:
            t.insert(k, ("raw", rng.choice(JUNK)))
        else:
            t = t[:k] if rng.random() < 0.5 else t[k:]
    return t


def mutate_text(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        if not s:
            break
        k = rng.randrange(len(s))
        m = rng.randint(0, 3)
        if m == 0:
            s = s[:k] + s[k + 1:]
        elif m == 1:
            s = s[:k] + rng.choice(JUNK) + s[k:]
        elif m == 2:
            s = s[:k]
        else:
            s = s[:k] + s[k] + s[k:]
    return s


if __name__ == "__main__":
    import sys
    rng = random.Random(int(sys.argv[1]))
    print(text(tokens(make(rng, fault=sys.argv[2] if len(sys.argv) > 2 else None)), rng, "lines"))
