"""Small documents over a tiny vocabulary.

Every part is drawn at random, with care that the document breaks no rule, except in one respect (the
"loose" aspect), where anything goes.  So a document tends to break one rule or none, in whatever context
comes up.  Nothing here decides what is right: the specification does.
"""
import random
import gen

SCHEMAS = [None, None, None, "s", "s", "public", "S", "a", "r t", "s.a"]
TABLES = ["a", "b", "c", "s", "A", "a b", "public", "t1"]
ALIASES = ["m", "n", "a", "b", "M", "s", "x", "a b", "n n"]
COLS = ["x", "y", "z", "X", "x y", "a", "id", "note_", "x.y", "`", "é"]
VALS = ["v", "w", "V", "v w", "1", "true", "null", "é", "", "1.5", "#fff", "x"]
KEYS = ["k", "K", "k k", "note", "color", "unique", "pk", "type", "null", "default", "name", "update", "increment", "not null", "primary key", "delete", "ref_"]
EXPRS = ["x", "y", "x*2", "lower(x)", "", "x y", "é", "(x, y)", "id"]
EDGE = sorted({b + d for b in [0, 127, 128, 255, 256, 32767, 65535, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 53, 2 ** 63 - 1, 10 ** 5, 10 ** 9, 10 ** 18] for d in (-1, 0, 1, 2, 5)} | {2 ** 32 + 32767, 2 ** 32 + 40000, 2 ** 48, 2 ** 33 + 7})
EDGE = [n for n in EDGE if 0 <= n < 2 ** 63]
ASPECTS = ["none", "project", "names", "keys", "pk", "index", "args", "default", "resolve", "types", "refkey", "conflict", "all"]
OF_PROP = {"C12": "project", "C13": "names", "C14": "keys", "C15": "pk", "C16": "index", "C17": "args", "C18": "default", "C19": "resolve", "C20": "types", "C21": "refkey", "C22": "conflict"}


def decimal(r):
    n = r.choice([1, 2, 5, 9, 12, 15])
    k = r.randint(1, n)
    s = "".join(r.choice("0123456789") for _ in range(n))
    return s[:k] + "." + s[k:]


def long_text(r, ban):
    unit = r.choice(["a", "ab ", "é", "日", "😀", "xé", "-", "\\", "//", "\n", '"' if '"' not in ban else "q"])
    n = r.choice([1, 7, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300])
    return "a" * r.randint(0, 3) + unit * n


class Tiny:
    def __init__(self, r, loose):
        self.r, self.loose = r, loose

    def is_loose(self, a, p=0.5):
        return self.loose in (a, "all") and self.r.random() < p

    def fresh(self, pool, used, key=lambda x: x, aspect="names", p=0.35):
        """something from the pool, not used before unless the aspect is loose"""
        r = self.r
        for _ in range(12):
            x = pool() if callable(pool) else r.choice(pool)
            if key(x) not in used or self.is_loose(aspect, p):
                used.add(key(x))
                return x
        return None

    def value(self):
        r = self.r
        k = r.randint(0, 9)
        if k == 0:
            return ("raw", str(r.choice(EDGE)))
        if k == 1:
            return ("raw", decimal(r))
        if k == 2:
            return ("raw", r.choice(["true", "false", "null"]))
        if k == 3:
            return ("raw", "`" + r.choice(EXPRS) + "`")
        if k == 4:
            return ("raw", r.choice(["#fff", "#a0B1c2"]))
        if k == 5:
            return ("raw", r.choice(["word", "v", "w", "nullx", "two words", '"dq"', '"v"', '""']))
        if k == 6 and r.random() < 0.3:
            return ("str", "'", long_text(r, "'"))
        return ("str", r.choice(["'", "'''"]), r.choice(["", "x", "v", "v w", "5", "é", "true", "a  b"]))

    def free(self, n, reserved):
        """free settings with keys that mean nothing here"""
        used, out = set(), []
        for _ in range(n):
            k = self.fresh([k for k in KEYS if k not in reserved], used, aspect="keys", p=0.6)
            if k is not None:
                out.append((k, None if self.r.random() < 0.35 else self.value()))
        return out

    def some(self, *w):
        return self.r.choice(w)

    # ------------------------------------------------------------------
    def type_(self):
        r = self.r
        t = {"schema": None, "args": [], "arr": [], "quote": False, "inside": False}
        k = r.random()
        if k < 0.45:
            t["base"] = r.choice(["int", "integer", "int4", "int"])
        elif k < 0.6 and self.enums:
            e = r.choice(self.enums)
            t["base"], t["schema"] = e["name"], e["schema"] if e["schema"] else r.choice([None, None, "public"])
        elif k < 0.66:
            t["base"], t["schema"] = r.choice(["e", "kind", "E", "int", "nosuch"]), r.choice([None, "s", "public", "r t", "q", "s.a"])
        elif k < 0.8:
            t["base"] = r.choice(["varchar", "character varying", "char", "character", "bit", "varbit", "bit varying", "smallint", "int2", "bool", "boolean", "text", "decimal", "numeric"])
        else:
            t["base"] = r.choice(gen.BUILTIN0 + gen.BUILTIN1 + gen.BUILTIN2)
        b = t["base"]
        if t["schema"] is None:
            want = 1 if b in gen.BUILTIN1 else 2 if b in gen.BUILTIN2 else 0
            if want and r.random() < 0.6:
                t["args"] = [str(r.choice([0, 1, 2, 3, 5, 10, 64, 255, 300, 65536, 2 ** 31, 2 ** 32 + 1])) for _ in range(want)]
            elif want == 0 and b not in gen.BUILTIN0 and r.random() < 0.15:
                t["args"] = [r.choice(["1", "'x'", "1.5", "null"])]
            if self.is_loose("args"):
                t["args"] = [r.choice(["1", "2", "3", "1", "2", "'5'", "1.5", "true", "null", "`e`", "#fff", "'x'", "0"]) for _ in range(r.randint(1, 3))]
        if r.random() < 0.1:
            t["arr"] = [r.choice(["", "", "3", "4", "0", "65536", "4294967295"]) for _ in range(r.choice([1, 1, 2, 3]))]
        t["quote"] = not gen.is_word(b) or r.random() < 0.1
        t["inside"] = r.random() < 0.5
        return t

    def default(self, t, isnull):
        r = self.r
        if self.is_loose("default", 0.7):
            b = t["base"]
            if b in ("smallint", "int2", "int", "integer", "int4") and r.random() < 0.5:
                return ("raw", str(r.choice(EDGE)))
            if t["args"] and t["args"][0].isdigit() and int(t["args"][0]) < 400 and r.random() < 0.7:
                n = max(0, int(t["args"][0]) + r.choice([-1, 0, 0, 1, 2, -2, 10]))
                return ("str", "'", "".join(r.choice("ab\u00e9\U0001f600\u65e5 ") for _ in range(n)).strip())
            return self.value()
        if isnull and r.random() < 0.3:
            return ("raw", "null")
        return gen.Gen(r).default_for(t, self.enums) if r.random() < 0.8 and all(a.isdigit() for a in t["args"]) else r.choice([("raw", "`now()`"), ("raw", "7")] if t["base"] in ("int", "integer", "text", "bigint") and not t["schema"] else [("raw", "`x`")])

    def column(self, t, used):
        r = self.r
        n = self.fresh(COLS, used)
        if n is None:
            return
        ty = self.type_()
        a = []
        k = r.random()
        pk = (k < 0.3 and not t["@pk"] and not ty["arr"]) or self.is_loose("pk", 0.35)
        null = r.choice([None, None, None, "null", "not null", "not null"])
        if pk and null == "null" and not self.is_loose("pk"):
            null = None
        if pk:
            t["@pk"] = True
            a.append((r.choice(["pk", "primary key", "pk"]), None if r.random() < 0.9 else self.value()))
            if self.is_loose("pk", 0.2):
                ty["arr"] = [r.choice(["", "2"])]
        if null:
            a.append((null, None if r.random() < 0.9 else self.value()))
        if self.is_loose("pk", 0.12):
            a += [(x, None) for x in ("null", "not null") if x != null]
        if r.random() < 0.3:
            a.append(("unique", None if r.random() < 0.9 else self.value()))
        if r.random() < 0.15:
            a.append(("increment", None))
        if r.random() < (0.7 if self.loose == "default" else 0.2):
            a.append(("default", self.default(ty, null == "null")))
        if r.random() < 0.25:
            a += self.free(r.choice([1, 1, 2]), {k for k, _ in a} | {"pk", "null", "not null", "unique", "default", "increment", "primary key"})
        if a and self.is_loose("keys", 0.4):
            a.append((r.choice(a)[0], r.choice([None, self.value()])))
            a = [x for x in a if x[0] != "default" or x[1] is not None]
        r.shuffle(a)
        t["cols"].append({"name": n, "type": ty, "set": a or (r.choice([None, []]) if r.random() < 0.2 else None)})

    def indexes(self, t):
        r = self.r
        names = [c["name"] for c in t["cols"]]
        uniq = [{c["name"]} for c in t["cols"] if any(k == "unique" for k, _ in c["set"] or [])]
        seen, defs = [], []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            items = []
            for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                k = r.random()
                if self.is_loose("index", 0.15):
                    items.append(("col", r.choice(COLS)))
                elif k < 0.22 or not names:
                    items.append(("expr", r.choice(EXPRS)))
                else:
                    items.append(("col", r.choice(names)))
            if not self.is_loose("index", 0.3):
                items = [x for k, x in enumerate(items) if x not in items[:k]]
            if self.is_loose("index", 0.06):
                items = []
            if defs and self.is_loose("index", 0.4):
                items = list(r.choice(defs)["cols"])
                if r.random() < 0.4:
                    r.shuffle(items)
                if r.random() < 0.2:
                    items = items[:-1]
            key = {n for _, n in items}
            a = []
            k = r.random()
            if self.is_loose("index", 0.15):
                a = [(x, None if x != "type" else ("raw", r.choice(gen.ITYPES))) for x in r.sample(["pk", "unique", "type"], r.choice([2, 2, 3]))]
            elif k < 0.2 and (not t["@pk"] or self.is_loose("pk", 0.7)) or self.is_loose("pk", 0.3):
                t["@pk"] = True
                a = [("pk", None)]
            elif k < 0.55:
                if not any(key <= u for u in uniq) or self.is_loose("index", 0.8):
                    uniq.append(key)
                    a = [("unique", None)]
            elif k < 0.75:
                a = [("type", r.choice([("raw", x) for x in gen.ITYPES] + [("str", "'", "btree"), ("raw", '"hash"')]))]
            if items in seen and not self.is_loose("index", 0.8):
                continue
            seen.append(items)
            if r.random() < 0.3:
                a += self.free(r.choice([1, 2]), {k for k, _ in a} | {"pk", "unique", "type"})
            if a and self.is_loose("keys", 0.3):
                x = r.choice(a)
                a.append((x[0], x[1] if x[0] == "type" else r.choice([None, self.value()])))
            r.shuffle(a)
            defs.append({"cols": items, "paren": len(items) != 1 or r.random() < 0.3, "set": a or (r.choice([None, []]) if r.random() < 0.2 else None)})
        return defs

    def way(self, t):
        """how a table is referred to"""
        r = self.r
        ways = [(t["schema"], t["name"])]
        hidden = {x["alias"] for x in self.tables if x is not t}
        if t["schema"] in (None, "public"):
            ways += [("public", t["name"])] + ([(None, t["name"])] if t["name"] not in hidden else [])
            if t["name"] in hidden:
                ways = [("public", t["name"])]
        if t["alias"]:
            ways += [(None, t["alias"])] * 2
        if self.is_loose("resolve", 0.35):
            ways = [(r.choice(SCHEMAS), r.choice(TABLES + ALIASES)), (t["schema"], t["alias"] or t["name"]), ("public", t["alias"] or "m"), (None, t["name"]), (r.choice(["s", "S", "public", "q"]), t["name"])]
        return r.choice(ways)

    def end(self, t, cols):
        s, n = self.way(t)
        return {"schema": s, "table": n, "cols": [self.r.choice(COLS) if self.is_loose("resolve", 0.12) else c for c in cols], "paren": len(cols) != 1 or self.r.random() < 0.1}

    def keys(self, t):
        out = [[c["name"]] for c in t["cols"] if any(k in ("pk", "primary key", "unique") for k, _ in c["set"] or [])]
        out += [[n for _, n in d["cols"]] for d in t["idx"] or [] if d["cols"] and any(k in ("pk", "unique") for k, _ in d["set"] or []) and all(k == "col" for k, _ in d["cols"])]
        names = {c["name"] for c in t["cols"]}
        return [k for k in out if len(set(k)) == len(k) and set(k) <= names]

    def ref(self):
        r = self.r
        T = [t for t in self.tables if t["cols"]]
        if not T:
            return None
        cand = [(t, k) for t in T for k in self.keys(t)]
        if self.is_loose("refkey", 0.6):
            n = r.choice([1, 1, 2, 2, 3])
            cand = [(t, r.sample([c["name"] for c in t["cols"]], min(n, len(t["cols"])))) for t in T]
        if not cand:
            return None
        t, key = r.choice(cand)
        key = list(key)
        if r.random() < 0.6:
            r.shuffle(key)
        if self.is_loose("types", 0.2) and len(key) > 1:
            key = key[:-1]
        rel = r.choice([">", ">", "<", "<", "-", "-", "<>"])
        u = r.choice(T)
        ty = [next((c["type"] for c in t["cols"] if c["name"] == n), None) for n in key]
        if rel == "<>" and not self.is_loose("refkey", 0.5):
            o = [(w, k) for w, k in cand if len(k) == len(key)]
            if not o:
                return None
            u, cols = r.choice(o)
            cols = list(cols)
        else:
            names = [c["name"] for c in u["cols"]]
            cols = r.sample(names, min(len(key), len(names)))
            if len(cols) < len(key) and not self.is_loose("types", 0.3):
                return None
        if not self.is_loose("types", 0.6):
            for n, x in zip(cols, ty):
                c = next(c for c in u["cols"] if c["name"] == n)
                if u is t and n in key:
                    continue
                if c["type"]["base"] != x["base"] or c["type"]["schema"] != x["schema"] or c["type"]["args"] != x["args"] or c["type"]["arr"] != x["arr"]:
                    if x["arr"] and any(k in ("pk", "primary key") for k, _ in c["set"] or []):
                        return None
                    c["type"] = gen.Gen(r).same_type(x)
                    c["set"] = [y for y in c["set"] or [] if y[0] != "default"] or None
        a, b = (u, cols), (t, key)
        if rel == "<":
            a, b = b, a
        one = lambda e: (id(e[0]), frozenset(e[1]))
        mark = {">": ("many", one(a)), "<": ("many", one(b)), "-": ("one", frozenset([one(a), one(b)])), "<>": ("mm", frozenset([one(a), one(b)]))}[rel]
        if mark in self.taken and not self.is_loose("conflict", 0.9):
            return None
        self.taken.add(mark)
        out = self.place(a, rel, b)
        if self.loose == "conflict" and r.random() < 0.5:
            rel2 = rel
            if r.random() < 0.5:
                a, b, rel2 = b, a, {"<": ">", ">": "<"}.get(rel, rel)
            if r.random() < 0.3:
                rel2 = r.choice(gen.RELS)
            if len(a[1]) > 1 and r.random() < 0.4:
                order = r.sample(range(len(a[1])), len(a[1]))
                a, b = (a[0], [a[1][k] for k in order]), (b[0], [b[1][k] for k in order])
            self.refs += [x for x in [self.place(a, rel2, b)] if x]
        return out

    def place(self, a, rel, b):
        r = self.r
        if len(a[1]) == 1 and r.random() < 0.4:
            c = next(c for c in a[0]["cols"] if c["name"] == a[1][0])
            c["set"] = list(c["set"] or [])
            c["set"].insert(r.randint(0, len(c["set"])), ("@ref", (rel, self.end(*b))))
            return None
        st = None
        if r.random() < 0.4:
            st = [(k, ("raw", r.choice(gen.ACTIONS))) for k in ("update", "delete") if r.random() < 0.6]
            if r.random() < 0.5:
                st += self.free(1, {"update", "delete"})
            if st and self.is_loose("keys", 0.5):
                st.append(r.choice(st))
            r.shuffle(st)
        return {"k": "ref", "name": r.choice([None, None, "r", "r t"]), "block": r.random() < 0.4, "lhs": self.end(*a), "rel": rel, "rhs": self.end(*b), "set": st}

    def note(self):
        r = self.r
        v = r.choice([("'", "n"), ("'", ""), ("'''", "m"), ("'", long_text(r, "'") if r.random() < 0.2 else "z"), ("'", "é")])
        return (r.random() < 0.5,) + v

    def doc(self):
        r = self.r
        self.enums, self.tables, self.refs, self.taken = [], [], [], set()
        ids = set()
        q = lambda x: (x[0] or "public", x[1])
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            x = self.fresh(lambda: (r.choice(SCHEMAS), r.choice(["e", "kind", "E", "a", "e f"])), ids, q)
            if x:
                used = set()
                vals = [v for v in [self.fresh(VALS, used) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))] if v is not None]
                self.enums.append({"k": "enum", "schema": x[0], "name": x[1],
                                   "vals": [{"name": v, "set": (self.free(r.choice([0, 1, 2]), set()) if r.random() < 0.3 else None)} for v in vals]})
        ids, als = set(), set()
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            x = self.fresh(lambda: (r.choice(SCHEMAS), r.choice(TABLES)), ids, q)
            if not x:
                continue
            t = {"k": "table", "schema": x[0], "name": x[1], "alias": self.fresh(ALIASES, als) if r.random() < (0.6 if self.loose in ("names", "resolve") else 0.3) else None,
                 "set": self.free(r.choice([0, 1, 2, 3]), set()) if r.random() < 0.25 else None, "cols": [], "idx": None, "note": [], "shuffle": r.random() < 0.3, "@pk": False}
            self.tables.append(t)
        for t in self.tables:
            used = set()
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
                self.column(t, used)
            if r.random() < (0.75 if self.loose in ("index", "refkey", "pk") else 0.3):
                t["idx"] = self.indexes(t)
            t["note"] = [self.note() for _ in range(r.choice([0, 0, 0, 1, 2]))]
        want = [1, 1, 2, 3] if self.loose in ("types", "refkey", "conflict", "resolve") else [0, 0, 1, 2]
        for _ in range(r.choice(want)):
            x = self.ref()
            if x:
                self.refs.append(x)
        groups, gn = [], set()
        for _ in range(r.choice([0, 1, 1, 2] if self.loose in ("resolve", "names") else [0, 0, 0, 1])):
            n = self.fresh(["g", "h", "G", "a", "g h"], gn)
            if n is None:
                continue
            its = r.sample(self.tables, r.randint(0, len(self.tables)))
            if self.is_loose("names", 0.4) and its:
                its.append(r.choice(its))
                r.shuffle(its)
            groups.append({"k": "group", "name": n, "set": self.free(r.choice([0, 1, 2]), set()) if r.random() < 0.3 else None,
                           "items": [self.way(t) for t in its], "note": [self.note() for _ in range(r.choice([0, 0, 1, 2]))]})
        notes = [{"k": "note", "val": self.note()} for _ in range(r.choice([0, 0, 0, 1, 2]))]
        prj = []
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3]) if self.loose in ("project", "all") and r.random() < 0.6 else 1):
            props = [(k, v) for k, v in self.free(r.choice([0, 0, 1, 2, 3, 6]), {"note"}) if v is not None and v[1][:1] != '"']
            if r.random() < 0.3:
                props.append(("database_type", ("str", "'", r.choice(["PostgreSQL", "MySQL"]))))
            if props and self.is_loose("project", 0.5):
                props.insert(r.randint(0, len(props)), (r.choice(props)[0], r.choice([("raw", "1"), r.choice(props)[1]])))
            if any(k == "database_type" and v[0] != "str" for k, v in props):
                props = [p for p in props if p[0] != "database_type"]
            prj.append({"k": "project", "name": r.choice(["p", "q", "p q"]), "props": props, "note": [self.note() for _ in range(r.choice([0, 0, 0, 1, 2]))]})
        out = self.enums + self.tables + self.refs + groups + notes + prj
        if r.random() < 0.5:
            r.shuffle(out)
        elif r.random() < 0.7:
            out = prj + self.enums + self.tables + self.refs + groups + notes
        # lists grown long
        if r.random() < 0.05:
            self.grow(out)
        return out

    def grow(self, doc):
        r = self.r
        n = r.choice([5, 8, 9, 16, 17, 33, 40])
        d = r.choice(doc) if doc else None
        if d is None:
            return
        if d["k"] == "table":
            k = r.randint(0, len(d["cols"]))
            d["cols"][k:k] = [{"name": "c%d" % i, "type": dict(schema=None, base=r.choice(["int", "text"]), args=[], arr=[], quote=False, inside=False), "set": None} for i in range(n)]
            if r.random() < 0.5 and d["idx"] is not None:
                d["idx"][0:0] = [{"cols": [("col", "c%d" % i)], "paren": False, "set": None} for i in range(n)]
        elif d["k"] == "enum":
            k = r.randint(0, len(d["vals"]))
            d["vals"][k:k] = [{"name": "c%d" % i, "set": None} for i in range(n)]
        elif d["k"] == "project":
            k = r.randint(0, len(d["props"]))
            d["props"][k:k] = [("c%d" % i, ("raw", "1")) for i in range(n)]
        elif d["k"] in ("group", "ref"):
            d["set"] = (d["set"] or []) + [("c%d" % i, None) for i in range(n)]


def make(r, aspect=None):
    """aspect: what is done loosely, or a property"""
    a = OF_PROP.get(aspect, aspect) or r.choice(ASPECTS)
    return Tiny(r, a).doc()


# --------------------------- texts with odd characters ---------------------------
ODD = ["\ufeff", "\0", "\u200b", "\u00a0", "\u2028", "\u0085", "\r", "\x0b", "\x0c", "\x1a", "\ufffe", "\u3000", "\u2060", "\x7f", "\x1b", "\u00ad"]
SOFT = ["", " ", "\n", "\t", "\r\n", "// c\n", "/* c */", "//", "// c", "/*", "/**/", "//\n", "/* /* */", "*/", "# c\n", "-- c\n", ";"]


def edge(r):
    """a small text with something odd before, after or in the middle of it"""
    k = r.random()
    body = "" if k < 0.15 else gen.text(gen.tokens(make(r)), r, "lines") if k < 0.6 else r.choice([
        "Project p { }", "Table t { a int }", "Project p { }\nTable t { a int }", "Project p { }\nNote: 'x'", "Project p { }\nTable t { a nosuch [default: 1, default: 2] }", "x", "Table"])
    odd = r.choice(ODD + SOFT)
    where = r.randint(0, 3)
    if where == 0:
        body = odd + body
    elif where == 1:
        body += odd
    elif where == 2:
        body = r.choice(SOFT) + odd + r.choice(SOFT) + body + r.choice(SOFT) + r.choice([odd, "", ""])
    else:
        k = r.randint(0, len(body))
        body = body[:k] + odd + body[k:]
    return body


# ------------------------------------ long lists ------------------------------------
NUMBERS = list(range(0, 18)) + [24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300]
FEW = [0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129]
LONG_OF = {"C12": "props projects", "C13": "cols vals tables tables2 aliases enums groups items", "C14": "tset gset cset vset iset rset props", "C15": "pks", "C16": "idx uidx icols cols", "C17": "args dims",
           "C18": "enumval vals quoted", "C19": "items refs tables2 aliases", "C20": "rcols refs", "C21": "rcols refs", "C22": "refs rcols", "C24": "refs rcols tables tables2 aliases"}


P = "Project p { }\n"
LIST_FORMS = [
    ("props", lambda x: "Project p {\n%s\n}\nTable t { a int }\n" % "\n".join("%s: 1" % k for k in x)),
    ("cols", lambda x: P + "Table t {\n%s\n}\n" % "\n".join("%s int" % k for k in x)),
    ("vals", lambda x: P + "Enum e {\n%s\n}\n" % "\n".join(x)),
    ("tables", lambda x: P + "\n".join("Table %s { a int }" % k for k in x)),
    ("tables2", lambda x: P + "\n".join("Table s.%s { a int }" % k for k in x)),
    ("aliases", lambda x: P + "\n".join("Table t%d as %s { a int }" % (n, k) for n, k in enumerate(x))),
    ("enums", lambda x: P + "\n".join("Enum %s { a }" % k for k in x)),
    ("groups", lambda x: P + "\n".join("TableGroup %s { }" % k for k in x)),
    ("items", lambda x: P + "\n".join("Table %s { a int }" % k for k in sorted(set(x))) + "\nTableGroup g {\n%s\n}\n" % "\n".join(x)),
    ("tset", lambda x: P + "Table t [%s] { a int }\n" % ", ".join(x)),
    ("gset", lambda x: P + "TableGroup t [%s] { }\n" % ", ".join("%s: 1" % k for k in x)),
    ("cset", lambda x: P + "Table t { a int [%s]\n }\n" % ", ".join(x)),
    ("vset", lambda x: P + "Enum e { a [%s]\n }\n" % ", ".join("%s: 'x'" % k for k in x)),
    ("iset", lambda x: P + "Table t { a int\n indexes { a [%s]\n } }\n" % ", ".join(x)),
    ("rset", lambda x: P + "Table t { a int [unique]\n b int }\nRef: t.b > t.a [%s]\n" % ", ".join(x)),
    ("idx", lambda x: P + "Table t {\n%s\nindexes {\n%s\n}\n}\n" % ("\n".join("%s int" % k for k in sorted(set(x)) or ["a"]), "\n".join(x))),
    ("uidx", lambda x: P + "Table t {\n%s\nindexes {\n%s\n}\n}\n" % ("\n".join("%s int" % k for k in sorted(set(x)) or ["a"]), "\n".join("%s [unique]" % k for k in x))),
    ("icols", lambda x: P + "Table t {\n%s\nindexes {\n(%s)\n}\n}\n" % ("\n".join("%s int" % k for k in sorted(set(x)) or ["a"]), ", ".join(x))),
    ("pks", lambda x: P + "Table t {\n%s\nindexes {\n%s\n}\n}\n" % ("\n".join("%s int" % k for k in sorted(set(x)) or ["a"]), "\n".join("(%s, `%s`)%s" % (k, k, " [pk]" if n in (len(x) - 1,) or x[:n].count(k) else "") for n, k in enumerate(x)))),
    ("rcols", lambda x: P + "Table t {\n%s\nindexes {\n(%s) [unique]\n}\n}\nTable u {\n%s\n}\nRef: u.(%s) > t.(%s)\n" % (
        ("\n".join("%s int" % k for k in sorted(set(x)) or ["a"]), ", ".join(sorted(set(x)))) + ("\n".join("%s int" % k for k in sorted(set(x)) or ["a"]), ", ".join(x), ", ".join(x)))),
    ("refs", lambda x: P + "Table t { a int [unique]\n %s }\n" % "\n".join("%s int" % k for k in sorted(set(x))) + "\n".join("Ref: t.%s > t.a" % k for k in x)),
    ("notes", lambda x: P + "\n".join("Note: '%s'" % k for k in x) + "\nTable t { a int\n%s }\n" % "\n".join("Note: '%s'" % k for k in x)),
    ("args", lambda x: P + "Table t { a x(%s)\n b int }\n" % ",".join("1" for k in x)),
    ("dims", lambda x: P + "Table t { a int%s\n b int }\n" % "".join("[%d]" % n for n, k in enumerate(x))),
    ("projects", lambda x: "\n".join("Project %s { }" % k for k in x)),
    ("enumval", lambda x: P + "Enum e {\n%s\n}\nTable t { a e [default: %s]\n b e [default: c0]\n}\n" % ("\n".join(x), x[-1] if x else "c0")),
    ("words", lambda x: P + "Table t [k: %s] { a int }\n" % (" ".join(x) or "x")),
    ("name", lambda x: P + "Table %s { %s int }\n" % ("_".join(x) or "x", "".join(x) or "x")),
    ("quoted", lambda x: P + "Table \"%s\" { \"%s\" int [note: '%s', default: `%s`] }\n" % ((" ".join(x),) * 4)),
    ("tail", lambda x: P + "Table t { a int }\n" * 1 + "// %s\n/* %s */" % ((" ".join(x),) * 2)),
]


# what the syntactic properties look at: also beyond the size of a byte
LONG_TOO = {"C03": "cols vals tables enums groups items idx icols refs rcols props projects notes", "C04": "tset gset cset vset iset rset props", "C05": "args dims", "C06": "cols", "C07": "refs rcols",
            "C08": "cols vals name quoted args", "C10": "cols vals refs tables", "C23": "cols vals tables items cset idx refs", "C27": "cols vals tables items enums groups idx refs"}


def long_docs(prop=None):
    """every list there is, of many lengths; as it is, and with the first, middle or last entry repeated at some place"""
    r = random.Random("long")
    for f, make_ in LIST_FORMS:
        if prop in LONG_OF and f not in LONG_OF[prop].split():
            continue
        for n in NUMBERS if prop in LONG_OF or prop == "C01" else FEW + [255, 256, 257, 300] if f in LONG_TOO.get(prop, "").split() else FEW:
            x = ["c%d" % k for k in range(n)]
            yield "%s.%d" % (f, n), make_(x)
            if n > 1:
                k = r.choice([0, n // 2, n - 1])
                at = r.choice([0, n // 2, n, n])
                yield "%s.%d.again%d.%d" % (f, n, k, at), make_(x[:at] + [x[k]] + x[at:])


# ------------------------------------ texts beyond 65536 ------------------------------------
def fill(r, n, what):
    """n characters"""
    w = {"ascii": ["word ", "other ", "x", "  "], "wide": ["\u00e9", "\u4e16", "a ", "\U0001f600"], "lines": ["a line\n", "\n", "\n\n"]}[what]
    out, k = [], 0
    while k < n:
        x = r.choice(w)
        out.append(x)
        k += len(x)
    return "".join(out)[:n]


def huge_docs(prop, seed):
    """texts of which a part, or the place of a part, is beyond what 16 bits count"""
    r = random.Random("huge/%s/%d" % (prop, seed))
    tail = "Enum e { v\n w [note: 'n'] }\nTable s.t as al [k: 1] { a int [pk, note: 'n']\n b e [default: v, ref: > u.k]\n indexes { (a, `x`) [unique] } Note: 'n' }\nTable u { k e [unique] }\nRef r: u.k - s.t.b [delete: cascade]\nTableGroup g [note: 'n'] { al\n u }\n"
    for n in (65535, 65536, 70000):
        for what in ("ascii", "wide", "lines"):
            x = fill(r, n, what)
            if n == 70000 or what == "ascii":
                yield "note.%s.%d" % (what, n), "Project p { Note: '''%s''' a: 'b' }\n" % x + tail
        x = fill(r, n, "ascii")
        yield "comment.%d" % n, "Project p { }\nTable z { a int /* %s */\n b int [note: 'n']\n // c\n }\n" % x + tail
    yield "blank", "Project p { }\n" + "\n" * 66000 + tail
    yield "name", P + "Table %s { \"%s\" int }\n" % ("n" * 66000, "m n" * 22000) + tail
    yield "literal", P + "Table z { a text [default: '%s', note: \"%s\"]\n b int [default: `%s`] }\n" % (fill(r, 66000, "ascii"), fill(r, 300, "wide"), fill(r, 66000, "ascii")) + tail
    yield "many", P + "Table z {\n%s}\n" % "".join("c%d int [note: '%s']\n" % (k, fill(r, 1000, "ascii")) for k in range(70)) + tail
    for k in range(8):                   # a fault, or none, beyond
        f = r.choice(gen.FAULTS.get(prop) or gen.ALL_FAULTS)
        d = gen.text(gen.tokens(gen.make(r, fault=f)), r, "lines")
        yield "far.%d.%s" % (k, f), "// %s\n" % fill(r, r.choice([65500, 66000, 131100]), r.choice(["ascii", "wide"])) + d


# ------------------------------------ names that are alike ------------------------------------
def alike(x):
    """names that resemble x"""
    out = [x.upper(), x.capitalize(), x.swapcase(), x + "_", "_" + x, x + " ", " " + x, x + x, x[:-1], x[1:], x + "1", x + "s", x[::-1], x + "." + x, "s." + x, x + "\u00e9", x.replace("a", "\u0430"), x.replace("_", " "),
           x.replace("_", ""), x.replace("_", "__"), x.replace(" ", "_"), x.replace(" ", "  "), x + "'", x + "`", x + ",", x + "(", x + "[]", "public." + x, x + "\n", x + "0", "0" + x, x[:len(x) // 2], x[len(x) // 2:], x + "\u0301",
           x[:-1] + "z", "z" + x[1:], x[1:2] + x[:1] + x[2:], x[1:] + x[:1], x[:-2] + x[-1:] + x[-2:-1], x[:len(x) // 2] + "z" + x[len(x) // 2 + 1:], ""]
    return sorted(set(out) - {x})


PLAIN = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def quoted(n):
    return n if n and n[0].isalpha() and set(n) <= PLAIN else '"%s"' % n


def is_words(n):
    return bool(n) and all(w and set(w) <= PLAIN for w in n.split(" ")) and n[0] in PLAIN and n[0].isalpha()


# forms of two names: one declared, one used
PAIR_FORMS = [
    ("usecol", lambda x, y: P + "Table t { %s int [unique] }\nTable u { a int }\nRef: u.a > t.%s\n" % (x, y)),
    ("usecols", lambda x, y: P + "Table t { %s int\n q int\n indexes { (%s, q) [pk] } }\nTable u { a int\n b int }\nRef: u.(a, b) > t.(q, %s)\n" % (x, x, y)),
    ("usetab", lambda x, y: P + "Table %s { a int [unique] }\nTable uu { a int }\nRef: uu.a > %s.a\n" % (x, y)),
    ("useinline", lambda x, y: P + "Table %s { a int [unique] }\nTable uu { a int [ref: > %s.a] }\n" % (x, y)),
    ("usealias", lambda x, y: P + "Table t as %s { a int [unique] }\nTable uu { a int }\nRef: %s.a < uu.a\n" % (x, y)),
    ("useschema", lambda x, y: P + "Table %s.t { a int [unique] }\nTable uu { a int }\nRef: %s.t.a < uu.a\n" % (x, y)),
    ("useitem", lambda x, y: P + "Table %s { a int }\nTableGroup g { %s }\n" % (x, y)),
    ("useitem2", lambda x, y: P + "Table t as %s { a int }\nTable %s.w { b int }\nTableGroup g { %s\n %s.w }\n" % (x, x, y, y)),
    ("useval", lambda x, y: P + "Enum e { w %s }\nTable t { a e [default: %s] }\n" % (x, y)),
    ("usevalstr", lambda x, y: P + "Enum e { w %s }\nTable t { a e [default: '%s'] }\n" % (x, y.strip('"').replace("'", ""))),
    ("useenum", lambda x, y: P + "Enum %s { v }\nTable t { a %s [default: v] }\n" % (x, y)),
    ("useenum2", lambda x, y: P + "Enum %s.e { v }\nTable t { a %s.e [default: v] }\n" % (x, y)),
    ("useidx", lambda x, y: P + "Table t { %s int\n q int\n indexes { (q, %s) [unique] } }\n" % (x, y)),
    ("usetypes", lambda x, y: P + "Enum %s { v }\nEnum %s.e { v }\nTable t { a %s [unique]\n b %s.e [unique] }\nTable u { a %s\n b %s.e }\nRef: u.a > t.a\nRef: u.b > t.b\n" % (x, x, x, x, y, y)),
    ("twotabs", lambda x, y: P + "Table %s { a int [unique] }\nTable %s { a int [unique] }\nTable w { a int [unique]\n b int [ref: > %s.a, ref: > %s.a] }\n" % (x, y, x, y)),
    ("twofrom", lambda x, y: P + "Table %s { a int }\nTable %s { a int }\nTable w { k int [unique] }\nRef: %s.a > w.k\nRef: w.k < %s.a\n" % (x, y, x, y)),
    ("twocols", lambda x, y: P + "Table t { %s int\n %s int [ref: > w.k] }\nTable w { k int [unique] }\nRef: t.%s > w.k\n" % (x, y, x)),
    ("twoschemas", lambda x, y: P + "Table %s.t { a int }\nTable %s.t { a int }\nTable w { k int [unique] }\nRef: %s.t.a > w.k\nRef: %s.t.a > w.k\n" % (x, y, x, y)),
    ("twom2m", lambda x, y: P + "Table %s { a int [unique] }\nTable %s { a int [unique] }\nTable w { k int [unique] }\nRef: %s.a <> w.k\nRef: w.k <> %s.a\nRef: %s.a <> %s.a\n" % (x, y, x, y, x, y)),
    ("twoone", lambda x, y: P + "Table t { %s int [unique]\n %s int [unique] }\nTable w { k int [unique]\n %s int [unique] }\nRef: t.%s - w.k\nRef: t.%s - w.k\nRef: t.%s - w.%s\n" % (x, y, x, x, y, y, x)),
    ("twocomp", lambda x, y: P + "Table t { %s int\n %s int\n c int }\nTable w { k int\n l int\n indexes { (k, l) [pk] } }\nRef: t.(%s, c) > w.(k, l)\nRef: t.(%s, c) > w.(k, l)\nRef: t.(%s, %s) > w.(k, l)\n" % (x, y, x, y, x, y)),
    ("twoaliases", lambda x, y: P + "Table t1 as %s { a int }\nTable t2 as %s { a int }\nTable w { k int [unique] }\nRef: %s.a > w.k\nRef: %s.a > w.k\n" % (x, y, x, y)),
    ("tabenum", lambda x, y: P + "Table %s { a int }\nEnum %s { v }\nTableGroup %s { %s }\n" % (x, y, y, x)),
]
ALIKE_OF = {"C12": "props", "C13": "cols vals tables tables2 aliases enums groups items tabenum useitem2", "C14": "tset gset cset vset iset rset props", "C15": "cset cols pks", "C16": "idx uidx icols useidx uexpr iexpr", "C17": "type",
            "C18": "enumval useval usevalstr useenum useenum2", "C19": "usecol usecols usetab useinline usealias useschema useitem useitem2 items", "C20": "usetypes usecols", "C21": "usecol usecols rcols", "C22": "twotabs refs usealias twofrom twocols twoschemas twom2m twoone twocomp twoaliases",
            "C03": "items vals cols idx", "C26": "", "C24": "usetab usealias twotabs useinline twofrom twoschemas twoaliases"}
MORE_FORMS = [
    ("uexpr", lambda x: P + "Table t { a int\n indexes {\n%s\n } }\n" % "\n".join("`%s` [unique]" % k.strip('"').replace("`", "") for k in x)),
    ("iexpr", lambda x: P + "Table t { a int\n indexes {\n%s\n } }\n" % "\n".join("(a, `%s`)" % k.strip('"').replace("`", "") for k in x)),
    ("type", lambda x: P + "Table t {\n%s }\n" % "\n".join("a%d %s(1) [null]\n" % (n, k) for n, k in enumerate(x))),
]
WORD_FORMS = {"props", "tset", "gset", "cset", "vset", "iset", "rset"}
STEMS = {"props": ["a", "key", "database_type", "long name", "some_key"], "tset": ["k", "note", "head color", "some_key"], "gset": ["k", "note", "head color", "some_key"], "cset": ["pk", "unique", "null", "default", "primary key", "increment", "not null"],
         "vset": ["note", "k", "a b"], "iset": ["pk", "unique", "type", "name", "a b"], "rset": ["update", "delete", "on delete", "k"], "type": ["varchar", "char", "bit", "decimal", "int", "time", "text", "character varying", "timestamptz"]}


def alike_docs(prop=None):
    """every list with two entries that are alike but not the same; every name declared and used as another one"""
    for f, make_ in LIST_FORMS + MORE_FORMS:
        if prop in ALIKE_OF and f not in ALIKE_OF[prop].split():
            continue
        if f not in " ".join(ALIKE_OF.values()).split():
            continue
        for stem in STEMS.get(f, ["a", "abcdef", "some_name", "a b"]):
            for n, y in enumerate(alike(stem)):
                if f in WORD_FORMS:
                    if is_words(y):
                        yield "%s.%s.%d" % (f, stem.replace(" ", "-"), n), make_([stem, y])
                else:
                    x, z = quoted(stem), quoted(y)
                    yield "%s.%s.%d" % (f, stem.replace(" ", "-"), n), make_([x, z])
                    if n % 5 == 0:
                        yield "%s.%s.%d.x" % (f, stem.replace(" ", "-"), n), make_([x, z, x])
    for f, make_ in PAIR_FORMS:
        if prop in ALIKE_OF and f not in ALIKE_OF[prop].split():
            continue
        for stem in ["a", "abcdef", "some_name", "a b"]:
            for n, y in enumerate(alike(stem) + [stem]):
                yield "%s.%s.%d" % (f, stem.replace(" ", "-"), n), make_(quoted(stem), quoted(y))


# ------------------------------------ one of many columns ------------------------------------
def wide_docs():
    """relationships of n columns with something amiss at one place"""
    for n in [1, 2, 3, 4, 5, 8]:
        for k in range(n + 1):                    # k = n: nothing amiss
            cs = ["c%d" % m for m in range(n)]
            for what in (["type", "args", "arr", "enum", "col", "lcol", "key", "order", "turn", "extra", "fewer", "null"] if k < n else ["none"]):
                for rel in ("<", ">") if n < 4 else (">",):
                    t = dict((c, ["int", "varchar(5)", "int[]", "e", "text"][m % 5]) for m, c in enumerate(cs))
                    u = dict(t)
                    l, r_, key = list(cs), list(cs), list(cs)
                    c = cs[k] if k < n else None
                    if what == "type":
                        u[c] = "bool"
                    elif what == "args":
                        u[c] = t[c].split("(")[0].replace("[]", "") + "(7)" if "(" in t[c] else "varchar(7)"
                    elif what == "arr":
                        u[c] = t[c][:-2] if t[c].endswith("[]") else t[c] + "[2]"
                    elif what == "enum":
                        u[c] = "s.e"
                    elif what == "col":
                        r_[k] = "zz"
                    elif what == "lcol":
                        l[k] = "zz"
                    elif what == "key":
                        key.remove(c)
                    elif what == "order":
                        key = key[k:] + key[:k]
                    elif what == "turn":
                        l, r_ = l[k:] + l[:k], r_[k:] + r_[:k]
                    elif what == "extra":
                        key.insert(k, "zz")
                    elif what == "fewer":
                        del l[k]
                    if not key or not l:
                        continue
                    T = "Table t {\n%s\n zz int\n indexes { (%s) [%s] }\n}\n" % ("\n".join("%s %s" % x for x in t.items()), ", ".join(key), "unique" if k % 2 else "pk")
                    U = "Table s.u as v {\n%s\n}\n" % "\n".join("%s %s%s" % (a, b, " [null]" if what == "null" and a == c else "") for a, b in u.items())
                    a, b = "v.(%s)" % ", ".join(l), "t.(%s)" % ", ".join(r_)
                    if rel == "<":
                        a, b = b, a
                    yield "wide.%d.%d.%s.%s" % (n, k, what, "lt" if rel == "<" else "gt"), P + "Enum e { v }\nEnum s.e { v }\n" + T + U + "Ref: %s %s %s\n" % (a, rel, b)


if __name__ == "__main__":
    import sys
    for k in range(int(sys.argv[2])):
        r = random.Random("%s/%d" % (sys.argv[1], k))
        print("-----")
        print(gen.text(gen.tokens(make(r, sys.argv[3] if len(sys.argv) > 3 else None)), r, "lines"))
