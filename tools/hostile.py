"""Texts meant to exhaust, confuse or overflow a parser."""


def texts():
    out = []

    def add(name, t):
        out.append((name, t))
    units = ["{", "}", "[", "]", "(", ")", ",", ":", ".", "-", "<", ">", "<>", "'", '"', "`", "'''", "/*", "*/", "//", "\n", " ", "\t", "#", "\\", "_", "1", "1.", "a",
             "é", "😀", "\x00", "\u2028", "\ufeff", "a ", "a.", "a[", "[]", "()", "a(", "Table ", "Table a{", "Enum ", "Enum a{", "Ref:", "Ref{", "Note:", "Note{", "Note:''", "Project a{", "TableGroup a{",
             "indexes{", "as ", "/**/", "/*/", "//\n", "'a'", '"a"', "`a`", "#fff", "ref:>a.b,", "a int ", "a int[", "a int[]", "a.b>c.d", "true", "nullx ", "\r\n"]
    heads = ["", "Table t{", "Table t{a int", "Table t{a int[", "Table t{indexes{", "Table t{indexes{(", "Enum e{", "Enum e{a[", "Ref:", "Ref:a.b>", "Ref:a.(", "TableGroup g{", "Project p{", "Project p{k:", "Note:", "Note:'''", "Table t[k:",
             "Table t{a varchar(", 'Table t{a "', "Table t{a int[default:"]
    for k, u in enumerate(units):
        for n in (1, 2, 3, 40):
            add("rep%d.%d" % (k, n), u * n)
        add("rep%d.big" % k, u * (4000 // len(u) + 1))
        for h, x in enumerate(heads):
            add("head%d.%d" % (h, k), x + u)
            add("head%d.%d.40" % (h, k), x + u * 40)
            add("head%d.%d.2000" % (h, k), x + u * (2000 // len(u) + 1))
    for k, x in enumerate(heads):
        add("only%d" % k, x)
    # long but well formed
    add("cols", "Project p{}\nTable t{" + "\n".join("c%d int [note: 'n%d']" % (k, k) for k in range(3000)) + "}")
    add("tables", "Project p{}\n" + "\n".join("Table t%d{a int [pk]\n b int [ref: > t%d.a]}" % (k, (k * 7) % 400) for k in range(400)))
    add("enum", "Project p{}\nEnum e{" + "\n".join("v%d" % k for k in range(4000)) + "}\nTable t{a e [default: v3999]}")
    add("group", "Project p{}\n" + "".join("Table t%d{a int}\n" % k for k in range(500)) + "TableGroup g{" + " ".join("t%d" % k for k in range(500)) + "}")
    add("idx", "Project p{}\nTable t{" + "\n".join("c%d int" % k for k in range(200)) + " indexes{" + "\n".join("(c%d,c%d)[unique]" % (k, k + 1) for k in range(199)) + "}}")
    add("note", "Note: '''" + "é😀\n" * 20000 + "'''")
    add("ident", "Table " + "a" * 100000 + " { a int }")
    add("arr", "Table t{a int" + "[]" * 5000 + "}")
    add("dims", "Table t{a int" + "[4294967295]" * 2000 + "}")
    add("args", "Table t{a int(" + ",".join(["9223372036854775807"] * 3000) + ")}")
    add("ends", "Ref: a.(" + ",".join("c%d" % k for k in range(4000)) + ")>b.(" + ",".join("c%d" % k for k in range(4000)) + ")")
    add("ends2", "Project p{}\nTable a{" + "\n".join("c%d int" % k for k in range(300)) + " indexes{(" + ",".join("c%d" % k for k in range(300)) + ")[pk]}}\nTable b{" + "\n".join("c%d int" % k for k in range(300))
        + "}\nRef: b.(" + ",".join("c%d" % k for k in range(300)) + ")>a.(" + ",".join("c%d" % k for k in range(300)) + ")")
    add("nested", "/*" * 20000)
    add("nested2", "/*" * 20000 + "*/" * 20000)
    add("slashes", "//" * 50000 + "\n")
    # numbers at the edges
    for k, n in enumerate(["0", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1" * 400, "0" * 400, "0" * 400 + "1"]):
        add("num%d.a" % k, "Project p{database_type:'PostgreSQL'}\nTable t{a int [default: %s]\nb smallint[default:%s]\nc bigint[default:%s]}" % (n, n, n))
        add("num%d.b" % k, "Project p{}\nTable t{a varchar(%s) [default: 'x']\nb int[%s]\nc char(%s)[default:'é']\nd bit(%s)[default:'']}" % (n, n, n, n))
        add("num%d.c" % k, "Project p{k: %s.%s}" % (n, n))
        add("num%d.d" % k, 'Project p{}\nTable t{a "varchar(%s)" [default: "x"]\nb "int[%s]"\nc decimal(%s,%s)[default:%s.5]}' % (n, n, n, n, n))
        for ty in ("char", "varchar", "bit", "varbit", "character", "\"character varying\"", "\"bit varying\"", "time", "decimal"):
            add("num%d.%s" % (k, ty.strip('"').replace(" ", "-")), "Project p{}\nTable t{a %s(%s) [default: 'é']}" % (ty, n) if ty[0] != '"' else "Project p{}\nTable t{a \"%s(%s)\" [default: 'é']}" % (ty.strip('"'), n))
    # empty things
    for k, t in enumerate(["", " ", "\n", "Project \"\" {}", "Table \"\" {}", "Table \"\".\"\" as \"\" {\"\" int}", "Enum \"\" {\"\"}", "Ref \"\": \"\".\"\" > \"\".\"\"", "TableGroup \"\" {\"\"}", "Note: ''", "Note: ''''''", "Note {}",
                           "Table t {a \"\"}", "Table t {a \"\" []}", "Table t {a \"()\"}", "Table t {a \"[]\"}", "Table t{a \"(5)\"}", "Table t {indexes {}}", "Table t {indexes {()}}", "Table t {indexes {``}}",
                           "Project p{}Table t{a varchar [default:'']}", "Project p{}Table t{a char [default:'']}", "Project p{}Table t{a \"varchar()\" [default:'']}", "Project p{}Table t{a decimal [default:'x']}",
                           "Project p{}Table t{a int [ref: > \"\".\"\"]}", "Project p{}Table t{}", "Project p{}TableGroup g{}", "Project p{}Enum e{}Table t{a e [default: x]}", "Project p{}Table t{a x.e [default: y]}"]):
        add("empty%d" % k, t)
        add("emptyé%d" % k, "// é😀\n" + t + " // 日本")
    return out
