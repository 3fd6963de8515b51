"""Documents made of the words and numbers that stand in the source of the library.

What a rule treats differently has to be named in the source: a word that is compared with, a number that is
counted up to.  So the words and numbers found there are worth trying as names, keys, texts, types and values,
and as lengths of lists and texts.  This only chooses what is tried; what is right, the specification says.
"""
import json, os, random, re
import gen, tiny

HERE = os.path.dirname(os.path.abspath(__file__))
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)))'|(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w])''', re.S)


def unescape(s):
    s = re.sub(r"\\\n\s*", "", s)
    try:
        s = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    except (ValueError, OverflowError):
        pass
    s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r"\\(.)", lambda m: ESC.get(m.group(1), m.group(1)), s)


def literals(root):
    """the words and the numbers in the source"""
    words, numbers = set(), set()
    for d, _, fs in sorted(os.walk(os.path.join(root, "src"))):
        for f in sorted(fs):
            if not f.endswith((".rs", ".pest")):
                continue
            try:
                s = open(os.path.join(d, f), encoding="utf-8").read()
            except (UnicodeDecodeError, OSError):
                continue
            for m in TOKEN.finditer(s):
                w = m.group(2) if m.group(2) is not None else m.group(3) if m.group(3) is not None else m.group(4)
                if w is not None:
                    w = w if m.group(2) is not None else unescape(w)
                    words.add(w)
                elif m.group(5):
                    t = m.group(5).replace("_", "")
                    numbers.add(int(t, 0 if t[:2] in ("0x", "0b") else 10))
    return words, numbers


def usable(words):
    out = set()
    for w in words:
        if 0 < len(w) <= 24 and "{" not in w and not any(0xd800 <= ord(c) < 0xe000 for c in w):
            out.add(w)
    return sorted(out)


def vocabulary(root):
    """(words, numbers, of these: not known before)"""
    w, n = literals(root)
    w, n = usable(w), sorted(n)
    known = json.load(open(os.path.join(HERE, "vocab.json")))
    return w, n, [x for x in w if x not in set(known["words"])], [x for x in n if x not in set(known["numbers"])]


# ------------------------------------ forms ------------------------------------
P = tiny.P


def one_line(w):
    return not set(w) & set("\n\r")


def value_forms(w):
    """the word as a value"""
    out = []
    if "'" not in w:
        out.append("'%s'" % w)
        out.append("'x%s y'" % w)
        out.append("'%s('" % w)
        out.append("'''%s'''" % w)
    if "`" not in w:
        out += ["`%s`" % w, "`%s(x)`" % w, "`x%s`" % w]
    if '"' not in w and one_line(w):
        out.append('"%s"' % w)
    if tiny.is_words(w):
        out += [w, w.upper(), w + "x", w + " x"]
    return out


def variants(w):
    return [v for v in dict.fromkeys([w, w.upper(), w.lower(), w.capitalize(), w + "x", "x" + w, w + w, w + "_1", "x" + w + "y"]) if v]


def nameable(w):
    return w and '"' not in w and one_line(w) and len(w) < 60


def word_docs(w, prop):
    """the word wherever a word can stand"""
    out = []
    Q = tiny.quoted
    for f, make_ in tiny.LIST_FORMS + tiny.MORE_FORMS:
        if f in tiny.WORD_FORMS:
            for v in variants(w):
                if tiny.is_words(v):
                    for x in ([v], [v, "k9"], [v, v], [v, "k9", v], ["k9", v, "k8", v]):
                        out.append(("%s" % f, make_(x)))
        elif f in ("args", "dims", "words", "name", "notes", "quoted", "tail"):
            continue
        else:
            for v in variants(w):
                if nameable(v):
                    for x in ([v], [v, "c9"], [v, v], [v, "c9", v], ["c9", v, v.upper()]):
                        out.append(("%s" % f, make_([Q(y) for y in x])))
    for f, make_ in tiny.PAIR_FORMS:
        for v in variants(w):
            if nameable(v):
                for a, b in ((v, v), (v, "a"), ("a", v), (v, v + "x")):
                    out.append(("%s" % f, make_(Q(a), Q(b))))
    vals = [x for v in (w, w.upper(), w.capitalize()) for x in value_forms(v)]
    for x in dict.fromkeys(vals):
        out.append(("default", P + "Table t { a text [default: %s]\n b int }\n" % x))
        out.append(("default.char", P + "Table t { a varchar(4) [default: %s]\n b char(5) [default: %s] }\n" % (x, x)))
        out.append(("default.enum", P + "Enum e { v\n w }\nTable t { a e [default: %s] }\n" % x))
        out.append(("default.int", P + "Table t { a int [default: %s, null]\n b bool [default: %s] }\n" % (x, x)))
        out.append(("value", P + "Table t [k: %s, headercolor: %s] { a int [note: %s, k: %s]\n indexes { a [name: %s, k: %s] } }\n" % ((x,) * 6)))
        for k in ("pk", "unique", "null", "not null", "increment", "primary key", "note"):
            out.append(("value." + k.replace(" ", "-"), P + "Table t { a int [%s: %s]\n b text [%s: %s, unique] }\n" % (k, x, k, x)))
        out.append(("value.type", P + "Table t { a int\n indexes { a [type: %s] } }\n" % x))
        out.append(("value.ref", P + "Table t { a int [unique]\n b int }\nRef: t.b > t.a [delete: %s]\nRef: t.b < t.a [update: %s, k: %s]\n" % (x, x, x)))
        out.append(("value.enum", P + "Enum e { a [note: %s]\n b [k: %s] }\n" % (x, x)))
        out.append(("value.prop", P.replace("{ }", "{ database_type: %s\n k: %s\n}" % (x, x)) + "Table t { a int }\n"))
        out.append(("value.group", P + "Table t { a int }\nTableGroup g [k: %s] { t\n Note: 'x' }\n" % x))
        if x[0] == "'":
            out.append(("note", P + "Note: %s\nTable t { a int\n Note: %s }\nTableGroup g { t\n note { %s } }\n" % (x, x, x)))
        if x[0] == "`":
            out.append(("expr", P + "Table t { a int\n indexes { %s\n (a, %s) [unique]\n %s [unique]\n (a, %s) } }\n" % (x, x, x, x)))
    for v in variants(w):
        if nameable(v):
            q = Q(v)
            for a in ("", "(1)", "(1,2)", "[]", "[2]"):
                out.append(("type", P + "Table t { a %s%s [unique]\n b %s%s [null] }\nRef: t.b > t.a\n" % (q, a, q, a)))
                out.append(("type.other", P + "Table t { a %s%s [unique]\n b int%s [null] }\nRef: t.b > t.a\n" % (q, a, a)))
                out.append(("type.schema", P + "Enum s.%s { v }\nTable t { a s.%s%s [unique, default: v]\n b s.%s%s }\nRef: t.b > t.a\n" % (q, q, a, q, a)))
            out.append(("all", P + "Enum %s { %s }\nTable %s as %s { %s int [unique]\n b %s [default: %s] }\nTable %s.%s { %s int [ref: > %s.%s] }\nTableGroup %s { %s\n %s.%s }\nRef %s: %s.%s.%s < %s.%s\n" % ((q,) * 22)))
            out.append(("alias", P + "Table %s as m { a int [unique] }\nTable s.%s as n { a int }\nTable w { b int }\nRef: %s.a < n.a\nRef: w.b > m.a\nRef: w.b > s.%s.a\n" % (q, q, q, q)))
    for sep in ([w] if not tiny.is_words(w) or w.strip() != w else []):         # something in the middle of a text
        out.append(("odd", P + "Table t { a int }" + sep + "\n"))
        out.append(("odd", sep + P + "Table t { a int }"))
        out.append(("odd", P + "Table t {" + sep + "a int }"))
        out.append(("odd", P + "Table t { a" + sep + "int }"))
        out.append(("odd", P + "Table t [k: x" + sep + "y] { a int }"))
        out.append(("odd", P + "// c" + sep + "\nTable t { a int /* c" + sep + "*/ }"))
    return out


def number_docs(n, prop):
    """the number and its neighbours: as lengths, as values"""
    out = []
    of = tiny.LONG_OF.get(prop, "").split()
    for k in sorted({n - 1, n, n + 1, n + 2, 2 * n + 1}):
        if k < 0:
            continue
        if k <= 700:
            for f, make_ in tiny.LIST_FORMS:
                if of and f not in of and k > 40:
                    continue
                x = ["c%d" % m for m in range(k)]
                out.append((f, make_(x)))
                for a, b in ((0, k), (k - 1, k), (0, 1), (k // 2, k)):
                    if k > 1:
                        out.append((f + ".again", make_(x[:b] + [x[a]] + x[b:])))
        if k <= 9000:
            pad = "a" * k
            for f, make_ in tiny.PAIR_FORMS:
                if k <= 300:
                    out.append((f, make_(pad, pad)))
                    out.append((f, make_(pad, pad + "a")))
            for fill in ("// %s\n" % pad, "\n" * k if k < 2000 else "/* %s */" % pad):
                out.append(("far", fill + P + "Table t { a int\n a int }\n"))
                out.append(("far", P + "Table t { a int [unique]\n b int\n%s a nosuch(1) [default: true, pk, null]\n c text(1)\n indexes { d\n c [pk, unique]\n (a, b) [unique]\n %s (b, a) [unique] } }\n" % (fill, fill)))
                out.append(("far", P + "Table t as x { a int [unique]\n b int [ref: > t.a] }\n%sRef: t.b > x.a\n%sRef: t.b > t.c\n%sTableGroup g { t\n x }\n" % (fill, fill, fill)))
                out.append(("far", P + "Table t { a int [unique]\n %s b int [ref: > t.a] }\n%sTable u { a text }\nRef: t.b > t.a\n" % (fill, fill)))
                out.append(("far", P + "Table t { a int [unique]\n b int [unique]\n indexes { (a, b) [pk]\n b\n %s b } }\n%s" % (fill, fill) + P))
                out.append(("far", P + "Enum e { v\n%s w\n v }\nTable t { a e [default: w]\n%s b e [default: z] }\nTable w { a int\n%s}\nTable w { }\n" % (fill, fill, fill)))
                out.append(("far", "Note: '''%s'''\nTable t [k: '%s', m: `%s`] { a int [note: '%s', unique, pk, note: 'y'] }\n" % (fill.replace("/", ""), pad, pad, pad) + P))
    for k in sorted({n - 1, n, n + 1}):
        if 0 <= k < 2 ** 63:
            for t in ("int", "smallint", "int2", "integer", "int4", "bigint", "serial", "bool", "x", "varchar", "e"):
                out.append(("int", P + "Enum e { v }\nTable t { a %s [default: %d]\n b int [k: %d] }\n" % (t, k, k)))
            for t in ("varchar", "char", "bit", "varbit", "int", "decimal", "time", "x"):
                out.append(("arg", P + "Table t { a %s(%d) [unique]\n b %s(%d) [null]\n c %s(%d)[%d] }\nRef: t.b > t.a\n" % (t, k, t, k + 1, t, k, k)))
                if k <= 400:
                    for m in (k - 1, k, k + 1):
                        out.append(("fits", P + "Table t { a %s(%d) [default: '%s'] }\n" % (t, k, "\u00e9a"[k % 2] * max(0, m))))
            out.append(("arr", P + "Table t { a int[%d] [unique]\n b int[%d]\n c int[%d] }\nRef: t.b > t.a\nRef: t.c > t.a\n" % (k, k, k + 1)))
    return out


def replaced(r, toks, words, numbers):
    """a token list with some of its words and numbers exchanged for those"""
    t = list(toks)
    for _ in range(r.choice([1, 1, 2, 3])):
        m = r.randint(0, 6)
        w = r.choice(variants(r.choice(words))) if words else "x"
        n = r.choice(numbers) + r.choice([-1, 0, 0, 1]) if numbers else 1
        ids = [k for k, x in enumerate(t) if x[0] == "id"]
        raws = [k for k, x in enumerate(t) if x[0] == "raw"]
        if m in (0, 1, 2) and ids and nameable(w):
            k = r.choice(ids)
            old = t[k][1]
            t = [("id", w) if j == k or (m != 1 and x == ("id", old)) else x for j, x in enumerate(t)]
        elif m == 3:
            ks = [k for k in raws if len(t[k][1]) > 1 and t[k][1][0] in "'`\""]
            if ks:
                t[r.choice(ks)] = ("raw", r.choice(value_forms(w) or ["'x'"]))
        elif m == 4 and tiny.is_words(w):
            ks = [k for k in raws if re.fullmatch(r"[a-z][a-z ]*", t[k][1]) and t[k][1] != "ref"]
            if ks:
                t[r.choice(ks)] = ("raw", w)
        elif m == 5 and n >= 0:
            ks = [k for k in raws if re.search(r"(?<![.\d])\d+(?![.\d])", t[k][1])]
            if ks:
                k = r.choice(ks)
                t[k] = ("raw", re.sub(r"(?<![.\d])\d+(?![.\d])", str(n), t[k][1], count=1))
        elif m == 6 and 0 <= n < 3000:
            t.insert(0, ("raw", "/* %s */ " % ("x" * n)))
    return t


def docs(root, prop, seed, n):
    words, numbers, nw, nn = vocabulary(root)
    out = []
    r = random.Random("vocab/%s/%d" % (prop, seed))

    def some(ds, most, name):
        ds = list(dict.fromkeys(ds))
        r.shuffle(ds)
        room = 900_000
        for k, (f, t) in enumerate(ds):
            room -= len(t) + 200
            if k >= most or room < 0:
                ds = ds[:k]
                break
        out.extend(("%s.%d.%s" % (name, k, f), t) for k, (f, t) in enumerate(ds))
    # what is new is tried thoroughly, the rest by samples
    if nw:
        few = sorted(nw, key=lambda w: (len(w) > 16, w))[:20]
        some([x for w in few for x in word_docs(w, prop)], 8 * n, "new")
    if nn:
        some([x for k in nn[:12] for x in number_docs(k, prop)], 6 * n, "newnum")
    some([x for w in r.sample(words, min(12, len(words))) for x in word_docs(w, prop)], n, "word")
    ws = nw * 6 + words
    ns = nn * 6 + numbers + tiny.NUMBERS
    for k in range(n * (3 if nw or nn else 1)):
        d = tiny.make(r, prop) if r.random() < 0.7 else gen.make(r, size=2)
        out.append(("mix.%d" % k, gen.text(replaced(r, gen.tokens(d), ws, ns), r, r.choice(["lines", "lines", "random"]))))
    return out


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "known":
        w, n = literals(sys.argv[2])
        print(json.dumps(dict(words=usable(w), numbers=sorted(n)), ensure_ascii=False, indent=0))
    else:
        v = vocabulary(sys.argv[2])
        print(v)
        print(len(docs(sys.argv[2], "C13", 1, 150)))
