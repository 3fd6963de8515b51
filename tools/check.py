#!/usr/bin/env python3
"""Decides one property: records what the library does on many texts and validates the records
against the TLA+ specification in spec/ with TLC.

  check.py --prop C13 [--tier quick|thorough] [--seed N]
  check.py --replay FILE            (the file named by a VIOLATION line)

exit 0: every record is a behaviour of the specification; 1: some is not (VIOLATION line);
2: the check itself failed."""
import argparse, collections, concurrent.futures as cf, fcntl, hashlib, json, multiprocessing as mp, os, random, re
import shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "tools"))
import gen, hostile, tiny, vocab  # noqa: E402

REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8
RULES = ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]
SYNTAX = ["C02", "C03", "C04", "C05", "C06", "C07"]
ALL_SCOPES = SYNTAX + RULES + ["C09", "C26", "C28"]


class Broken(Exception):
    """the check cannot give an answer"""


# --------------------------------- what is run per property ---------------------------------
# scopes: (family, sample size or None for all); rand: (kind, number)
def plan(prop, thorough):
    m = 12 if thorough else 1
    BIG = 1 if thorough or prop in ("C01", "C05", "C08", "C23") else 8
    every = lambda n: [(s, n * (10 if thorough else 1)) for s in ALL_SCOPES]
    if prop == "C01":
        return dict(mode="outcome", spec="CallsTrace", around=("all", 200 * m, 200 * m, None), scopes=[(s, None) for s in ALL_SCOPES] if thorough else every(700),
                    rand=[("mut", 3000 * m), ("chr", 3000 * m), ("any", 500 * m), ("tiny", 3000 * m), ("edge", 1500 * m), ("alike:all", 400 * m), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m), ("big", 6 * m), ("hostile", 1)])
    if prop in SYNTAX:
        mode = "outcome" if prop == "C02" else "content"
        other = [(s, 25 * m) for s in ALL_SCOPES if s != prop]
        return dict(mode=mode, spec="Conform", scopes=[(prop, None)] + other, around=("all", 200 * m, 200 * m, None),
                    rand=[("ok", 350 * m), ("mut", (900 if prop == "C02" else 250) * m), ("chr", (500 if prop == "C02" else 100) * m),
                          ("tiny:none", 500 * m), ("edge", 250 * m), ("alike:" + (prop if prop == "C03" else "all"), 1 if prop == "C03" else 300 * m), ("wide", (353 if prop == "C07" else 40) * m), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m), ("corpus", 1), ("big", m)])
    if prop == "C08":
        return dict(mode="spans", spec="Conform", around=("all", 200 * m, 200 * m, None), scopes=[(s, n * {"C06": 10, "C05": 6, "C07": 4, "C04": 4, "C03": 4}.get(s, 1)) for s, n in every(150)], rand=[("ok", 900 * m), ("mut", 200 * m), ("tiny:none", 500 * m), ("edge", 250 * m), ("alike:" + (prop if prop == "C03" else "all"), 1 if prop == "C03" else 300 * m), ("wide", (353 if prop == "C07" else 40) * m), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m), ("corpus", 1), ("big", m)])
    if prop == "C09":
        return dict(mode="content", spec="Conform", scopes=[("C09", None)], rand=[("layout", 130 * m), ("layoutfault", 50 * m), ("layouttiny", 120 * m)])
    if prop == "C10":
        return dict(mode="outcome", spec="Conform", around=("all", 200 * m, 200 * m, None), scopes=every(130), rand=[("ok", 300 * m), ("any", 300 * m), ("mut", 300 * m), ("tiny", 600 * m), ("edge", 1500 * m), ("alike:" + (prop if prop == "C03" else "all"), 1 if prop == "C03" else 300 * m), ("wide", (353 if prop == "C07" else 40) * m), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m), ("corpus", 1)])
    if prop == "C11":
        return dict(mode="hist", spec="CallsTrace", scopes=[], rand=[], mc=["CallsMC"])
    if prop in RULES:
        near = [("C22", 400 * m)] if prop in ("C20", "C21", "C19") else []
        cap = None if thorough else {"C22": 9000}.get(prop)
        return dict(mode="outcome", spec="Conform", edits=(300 * m, 300 * m, None), around=(prop, 2500 * m, 1200 * (20 if thorough else 1), None), scopes=[(prop, cap)] + near + [(s, 25 * m) for s in RULES + ["C26"] if s != prop and s not in dict(near)],
                    rand=[("own:" + prop, 450 * m), ("ok", 250 * m), ("any", 100 * m), ("tiny:" + prop, 1500 * m), ("tiny:none", 500 * m), ("tiny", 300 * m), ("alike:" + prop, 1), *([("wide", 1)] if prop in ("C19", "C20", "C21") else []), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m), ("big", m)])
    if prop == "C23":
        return dict(mode="outcome", spec="Conform", scopes=every(220), edits=(300 * m, 300 * m, None), around=("all", 500 * m, 400 * m, None), rand=[("any", 900 * m), ("spread", 300 * m), ("mut", 150 * m), ("tiny", 1500 * m), ("edge", 250 * m), ("alike:" + (prop if prop == "C03" else "all"), 1 if prop == "C03" else 300 * m), ("wide", (353 if prop == "C07" else 40) * m), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m)])
    if prop == "C24":
        return dict(mode="relq", spec="RelTrace", edits=(300 * m, 300 * m, None), around=("all", 300 * m, 300 * m, None), scopes=[("C19", 900 * m), ("C22", 900 * m), ("C21", 200 * m), ("C26", 300 * m)], rand=[("ok", 900 * m), ("tiny", 900 * m), ("big", 2 * m), ("alike:" + prop, 960), ("long:" + prop, 1), ("huge:" + prop, 4), ("dict:" + prop, 150 * m)])
    if prop == "C25":
        return dict(mode="probe", spec="FormsTrace", scopes=[], rand=[])
    if prop == "C26":
        return dict(mode="outcome", spec="Conform", scopes=[("C26", None)], edits=(200 * m, 200 * m, "orders"), around=("all", 150 * m, 150 * m, "orders"), laws=True, rand=[("perm", 160 * m), ("permfault", 140 * m), ("permtiny", 250 * m)])
    if prop == "C28":
        return dict(mode="outcome", spec="Conform", scopes=[("C28", None)], edits=(350 * m, 350 * m, "others"), around=("all", 200 * m, 200 * m, "others"), laws=True, rand=[])
    if prop == "C27":
        return dict(mode="outcome", spec="Conform", scopes=[(s, (800 if s == "C22" else 400 if s in ("C19", "C20", "C21", "C13", "C18") else 180) * m) for s in ALL_SCOPES], edits=(900 * m, 900 * m, None), around=("all", 1200 * m, 900 * m, None), rand=[("ok", 900 * m), ("any", 900 * m), ("spread", 200 * m), ("tiny", 2500 * m), ("tiny:none", 1000 * m), ("alike:" + (prop if prop == "C03" else "all"), 1 if prop == "C03" else 300 * m), ("wide", (353 if prop == "C07" else 40) * m), ("long:" + prop, 1), ("huge:" + prop, BIG), ("dict:" + prop, 150 * m), ("corpus", 1), ("big", 2 * m)])
    raise Broken("no such property: " + prop)


# ------------------------------------- documents -------------------------------------
Doc = collections.namedtuple("Doc", "id text fam")     # fam: None, or the id of the family


def inject(r, d, f):
    try:
        return gen.inject(r, d, f)
    except IndexError:                    # an earlier fault took away what this one needs
        return None


def _rand(job):
    kind, seed, k, n = job
    out = []
    for i in range(k, k + n):
        r = random.Random("%s/%d/%d" % (kind, seed, i))
        base = kind.split(":")[0]
        name = "%s.%d" % (kind.replace(":", "-"), i)
        if base in ("ok", "mut", "chr"):
            t = gen.tokens(gen.make(r))
            if base == "ok":
                out.append(Doc(name, gen.text(t, r, r.choice(["lines", "plain", "random"]), True, r.choice([0, 0.2])), None))
            else:
                if base == "mut" or r.random() < 0.3:
                    t = gen.mutate(r, t)
                s = gen.text(t, r, r.choice(["lines", "plain", "random"]))
                if base == "chr":
                    s = gen.mutate_text(r, s)
                out.append(Doc(name, s, None))
        elif base in ("own", "any"):
            kinds = gen.FAULTS[kind.split(":")[1]] if base == "own" else gen.ALL_FAULTS
            f = kinds[i % len(kinds)]
            s = gen.text(gen.tokens(gen.make(r, fault=f)), r, r.choice(["lines", "lines", "random"]), True, 0.1)
            out.append(Doc(name + "." + f, s, None))
        elif base == "spread":            # several faults at once
            d = gen.make(r, size=r.choice([2, 3, 4]))
            fs = []
            for f in r.sample(gen.ALL_FAULTS, r.choice([2, 2, 3])):
                d2 = inject(r, d, f)
                if d2 is not None:
                    d = d2
                    fs.append(f)
            out.append(Doc(name + "." + "+".join(fs), gen.text(gen.tokens(d), r, "lines"), None))
        elif base == "tiny":              # tiny vocabulary, one aspect handled loosely
            of = kind.split(":")[1] if ":" in kind else None
            s = gen.text(gen.tokens(tiny.make(r, of)), r, r.choice(["lines", "lines", "plain", "random"]), True, r.choice([0, 0.2]))
            out.append(Doc(name, s, None))
        elif base == "big":
            d = gen.make(r, size=r.choice([14, 20]), fault=r.choice([None, None] + gen.ALL_FAULTS))
            out.append(Doc(name, gen.text(gen.tokens(d), r, "lines"), None))
        elif base == "edge":              # odd characters around and inside a text
            out.append(Doc(name, tiny.edge(r), None))
        elif base in ("layout", "layoutfault", "layouttiny"):
            d = tiny.make(r) if base == "layouttiny" else gen.make(r, size=r.choice([1, 2, 3]), fault=r.choice(gen.ALL_FAULTS) if base == "layoutfault" else None)
            t = gen.tokens(d)
            out.append(Doc(name + ".0", gen.text(t, r, "lines"), name))
            for v in range(5):
                out.append(Doc(name + ".%d" % (v + 1), gen.text(t, r, r.choice(["random", "random", "plain"]), r.random() < 0.6, r.choice([0, 0, 0.5, 1])), name))
        elif base in ("perm", "permfault", "permtiny"):
            d = tiny.make(r) if base == "permtiny" else gen.make(r, size=r.choice([2, 3, 4]), fault=r.choice(gen.ALL_FAULTS) if base == "permfault" else None)
            out.append(Doc(name + ".0", gen.text(gen.tokens(d), r, "lines"), name))
            for v in range(5):
                e = list(d)
                if v == 0:
                    e.reverse()
                else:
                    r.shuffle(e)
                out.append(Doc(name + ".%d" % (v + 1), gen.text(gen.tokens(e), r, "lines"), name))
    return out


def corpus():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "tests"))):
        for f in sorted(fs):
            if f.endswith(".dbml"):
                p = os.path.join(d, f)
                try:
                    out.append(Doc("corpus." + os.path.relpath(p, REPO).replace(" ", "_"), open(p, encoding="utf-8").read(), None))
                except UnicodeDecodeError:
                    pass
    return out


def random_docs(pool, rand, seed):
    jobs = []
    out = []
    for kind, n in rand:
        if kind == "corpus":
            out += corpus()
        elif kind.startswith("long:"):
            out += [Doc("long." + i, t, None) for i, t in tiny.long_docs(kind[5:])]
        elif kind.startswith("huge:"):
            ds = [Doc("huge." + i, t, None) for i, t in tiny.huge_docs(kind[5:], seed)]
            out += ds if n <= 1 else random.Random("huge/%d" % seed).sample(ds, min(n, len(ds)))
        elif kind.startswith("alike:"):
            ds = [Doc("alike." + i, t, None) for i, t in tiny.alike_docs(kind[6:])]
            out += ds if n <= 1 or len(ds) <= n else random.Random("alike/%d" % seed).sample(ds, n)
        elif kind == "wide":
            ds = [Doc("wide." + i, t, None) for i, t in tiny.wide_docs()]
            out += ds if n <= 1 or len(ds) <= n else random.Random("wide/%d" % seed).sample(ds, n)
        elif kind.startswith("dict:"):
            out += [Doc("dict." + i, t, None) for i, t in vocab.docs(REPO, kind[5:], seed, n)]
        elif kind == "hostile":
            out += [Doc("hostile." + i, t, None) for i, t in hostile.texts()]
        else:
            step = max(1, min(100, n // 8))
            jobs += [(kind, seed, k, min(step, n - k)) for k in range(0, n, step)]
    for part in pool.imap(_rand, jobs):
        out += part
    return out


def written(work, module, name, env, extra=()):
    """the documents a module writes while TLC explores it, in the order of their first writing"""
    out = os.path.join(work, name)
    rc, log = java(module, dict(env, **{module[:-3].upper() + "_OUT": out}), out + ".log", extra)
    if not os.path.exists(out) or "Error:" in log:
        raise Broken(module + ": " + log[-2000:])
    ls = [json.loads(x) for x in dict.fromkeys(open(out, encoding="utf-8"))]
    os.unlink(out)
    return ls


def walk(num, seed, depth=14):
    return ("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-fp", "0")


def numbered(ls, name, variants, r, layouts=False):
    """as documents; with variants: each with its other forms, to be judged alike"""
    docs = []
    for n, x in enumerate(ls):
        i = "%s.%d" % (name, n)
        if variants:
            docs += [Doc("%s.%d" % (i, v), t, i) for v, t in enumerate(dict.fromkeys([x["txt"]] + x[variants]))]
        else:
            t = r.choice([x["txt"]] * 3 + x.get("others", []) + x.get("orders", []))
            if layouts and r.random() < 0.15:
                t = r.choice([lambda t: t.replace("\n", "\r\n"), lambda t: t.replace("\n", " // c\n"), lambda t: t.replace(" ", "\t"), lambda t: t.replace("\n", "\n\n  "), lambda t: t.replace(" {", "{"), lambda t: t.replace("\n", " /* c */\n")])(t)
            docs.append(Doc(i, t, None))
    return docs


def edits(pool, work, singles, walks, variants, seed):
    """documents an author comes by: one edit away from a start (all of these, sampled), or some edits (walks)"""
    jobs = [pool.submit(written, work, "EditsGen", "edits.0", dict(EDITS_STEPS="1"))]
    for k in (1, 2):
        jobs.append(pool.submit(written, work, "EditsGen", "edits.%d" % k, dict(EDITS_STEPS="4"), walk(-(-walks // 2), seed * 100 + k)))
    r = random.Random("edits/%d" % seed)
    docs = []
    for k, j in enumerate(jobs):
        ls = j.result()
        if k == 0 and len(ls) > singles:
            ls = r.sample(ls, singles)
        docs += numbered(ls, "edits" if k == 0 else "edits-walk%d" % k, variants, r)
    return docs


def around(pool, work, of, singles, walks, variants, seed, thorough):
    """faults in circumstances: with one circumstance, with two or four; in depth: with every two"""
    env = dict(AROUND_OF=of, AROUND_MORE="yes" if variants else "", AROUND_CLOSE="")
    near = dict(env, AROUND_CLOSE="yes")
    one = of != "all" or thorough
    jobs = [pool.submit(written, work, "AroundGen", "around.0", dict(env, AROUND_STEPS="0")),
            pool.submit(written, work, "AroundGen", "around.1", dict(env, AROUND_STEPS="1"), () if one else walk(singles, seed * 100))]
    if thorough and of != "all":
        jobs.append(pool.submit(written, work, "AroundGen", "around.2", dict(env, AROUND_STEPS="2")))
    else:
        jobs.append(pool.submit(written, work, "AroundGen", "around.2", dict(env, AROUND_STEPS="2"), walk(walks, seed * 100 + 1)))
    jobs.append(pool.submit(written, work, "AroundGen", "around.4", dict(env, AROUND_STEPS="4"), walk(-(-walks // 3), seed * 100 + 2)))
    # circumstances next to the fault only: every two of them, or some two, and some three
    if of != "all":
        jobs.append(pool.submit(written, work, "AroundGen", "around.n2", dict(near, AROUND_STEPS="2")))
    else:
        jobs.append(pool.submit(written, work, "AroundGen", "around.n2", dict(near, AROUND_STEPS="2"), walk(2 * walks, seed * 100 + 3)))
    # a third of them at once
    some = 2 * walks if of != "all" else 4 * walks if walks > 800 * (12 if thorough else 1) else 3 * walks // 2
    for k in range(4):
        jobs.append(pool.submit(written, work, "AroundGen", "around.m%d" % k, dict(env, AROUND_CLOSE="mixed", AROUND_STEPS="0"), walk(-(-some // 4), seed * 100 + 4 + k, 100)))
    r = random.Random("around/%d" % seed)
    docs = []
    for k, j in zip(("0", "1", "2", "4", "n2", "m0", "m1", "m2", "m3"), jobs):
        ls = j.result()
        most = {"0": singles, "1": singles, "2": walks if not (thorough and of != "all") else None, "n2": None if thorough else 5000}.get(k)
        if most is not None and len(ls) > most:
            ls = r.sample(ls, most)
        docs += numbered(ls, "around" + k, variants, r, layouts=True)
    return docs


def java(module, env, out, extra=(), heap="3g"):
    e = dict(os.environ)
    e.update(env)
    meta = tempfile.mkdtemp(dir=os.path.dirname(out))
    cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss8m", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-cp", CP, "tlc2.TLC", *(() if "-workers" in extra else ("-workers", "1")), "-metadir", meta,
           "-noGenerateSpecTE", *extra, "-config", os.path.join(SPEC, module + ".cfg"), os.path.join(SPEC, module + ".tla")]
    with open(out, "wb") as f:
        rc = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC).returncode
    shutil.rmtree(meta, ignore_errors=True)
    return rc, open(out, encoding="utf-8", errors="replace").read()


OK = "Model checking completed. No error has been found."


COST = {"C02": 6, "C05": 2, "C20": 2, "C22": 2, "C13": 2}


def scopes(pool, work, wanted, seed, thorough):
    """the documents of the wanted families, evaluated by TLC in a few processes"""
    bins = [[0, k, []] for k in range(5)]
    for s, n in sorted(wanted, key=lambda x: -COST.get(x[0], 1)):
        b = min(bins)
        b[0] += COST.get(s, 1)
        b[2].append(s)

    def some(b):
        if not b[2]:
            return
        env = dict(("SCOPE_" + s, os.path.join(work, "scope." + s)) for s in b[2])
        env["SCOPE_SIZE"] = "thorough" if thorough else "quick"
        rc, log = java("Scopes", env, os.path.join(work, "scopes.%d.log" % b[1]))
        if OK not in log:
            raise Broken("Scopes %s: %s" % (b[2], log[-2000:]))
    done = [pool.submit(some, b) for b in bins]
    for f in done:
        f.result()
    return dict((s, scope_docs(work, s, n, seed)) for s, n in wanted)


def scope_docs(work, name, sample, seed):
    out = os.path.join(work, "scope." + name)
    docs = []
    for k, line in enumerate(open(out, encoding="utf-8")):
        j = json.loads(line)
        t = j["txt"].encode("utf-16", "surrogatepass").decode("utf-16")
        docs.append(Doc("%s.%d" % (name, k), t, "%s/%d" % (name, j["fam"]) if "fam" in j else None))
    os.unlink(out)
    n = len(docs)
    if sample is not None and len(docs) > sample:
        r = random.Random("%s/%d" % (name, seed))
        docs = [docs[k] for k in sorted(r.sample(range(len(docs)), sample))]
        docs = [d._replace(fam=None) for d in docs]
    return docs, n


# --------------------------------------- harness ---------------------------------------
def build(hook=False):
    d = os.path.join(ROOT, "build", "relq" if hook else "conf")
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=d)
    env.pop("RUSTFLAGS", None)
    if hook:
        env["RUSTFLAGS"] = "--cfg dbml_verif"
    with open(os.path.join(ROOT, "build", "lock." + os.path.basename(d)), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Broken("the harness does not build: " + r.stdout.decode(errors="replace")[-3000:])
    return os.path.join(d, "debug", "conf")


def frames(docs):
    out = []
    for d in docs:
        b = d.text.encode()
        out.append(b"%s %d\n" % (d.id.encode(), len(b)) + b + b"\n")
    return b"".join(out)


def lost(d, how):
    return json.dumps(dict(id=d.id, txt=d.text, low=[], u=dict(st=how), c=dict(st=how), st=how, q=[]))


def harness(conf, mode, docs, limit):
    """one line per document; a document on which the process dies or hangs gets a line that says so"""
    lines = []
    deaths = 0
    while len(lines) < len(docs):
        rest = docs[len(lines):]
        try:
            r = subprocess.run([conf, mode, str(limit)], input=frames(rest), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
            got, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            got, rc = e.stdout or b"", 1
        whole = got.decode("utf-8").split("\n")
        whole = whole[:-1]                      # the last one is empty, or cut off
        lines += whole
        if rc == 0:
            if len(lines) != len(docs):
                raise Broken("the harness lost documents")
            break
        if rc == 2:
            raise Broken("harness: " + r.stderr.decode(errors="replace")[-500:])
        deaths += 1
        if rc != 3 and len(lines) < len(docs):
            lines.append(lost(docs[len(lines)], "crash"))
        if deaths >= 3:                         # enough of that: the rest would only take long
            break
    return lines


# -------------------------------------- validation --------------------------------------
STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
REJECTED = re.compile(r'^"REJECTED (\S+) \| (.*)"$')


def validate(work, k, module, prop, lines):
    tr = os.path.join(work, "trace.%d" % k)
    with open(tr, "w", encoding="utf-8") as f:
        for x in lines:
            f.write(x + "\n")
    rc, log = java(module, dict(CONF_PROP=prop, CONF_TRACE=tr), tr + ".log")
    os.unlink(tr)
    st = STATES.findall(log)
    gen_, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    rej = []
    ls = log.split("\n")
    for n, x in enumerate(ls):
        m = REJECTED.match(x)
        if m:
            det = []
            for y in ls[n + 1:n + 80]:
                if y.startswith("Error") or y.startswith('"'):
                    break
                det.append(y)
            rej.append((m.group(1), m.group(2), "\n".join(det)))
    skipped = len(re.findall(r'^"SKIPPED ', log, re.M))
    judged = collections.Counter(tuple(sorted(x.split())) for x in re.findall(r'^"JUDGED(.*)"$', log, re.M))
    if OK in log and not rej:
        return gen_, dist, [], skipped, judged
    if rej and "Invariant Conforms is violated" in log:
        return gen_, dist, rej, skipped, judged
    raise Broken("TLC on %s: rc %d\n%s" % (module, rc, log[-4000:]))


def split(docs, n):
    """n parts of about equal length; families stay together and in order"""
    groups = collections.OrderedDict()
    for k, d in enumerate(docs):
        groups.setdefault(d.fam or ("#", k), []).append(d)
    size = lambda g: sum(len(d.text) + 120 for d in g)
    gs = sorted(groups.values(), key=size, reverse=True)
    parts = [[0, i, []] for i in range(n)]
    import heapq
    heapq.heapify(parts)
    for g in gs:
        p = heapq.heappop(parts)
        p[0] += size(g)
        p[2] += g
        heapq.heappush(parts, p)
    return [p[2] for p in parts if p[2]]


def with_head(lines, docs):
    first = {}
    out = []
    for n, (x, d) in enumerate(zip(lines, docs)):
        h = 0
        if d.fam is not None:
            if d.fam in first:
                h = first[d.fam]
            else:
                first[d.fam] = n + 1
        out.append('{"head":%d,%s' % (h, x[1:]))
    return out


def sessions(lines, per=60):
    """outcomes as calls"""
    out = []
    cur = []
    for x in lines:
        j = json.loads(x)
        for api, st in (("unchecked", j["u"]["st"]), ("checked", j["c"]["st"])):
            cur.append(dict(p=0, api=api, doc=j["id"], res=st))
        if len(cur) >= 2 * per:
            out.append(json.dumps(dict(calls=cur)))
            cur = []
    if cur:
        out.append(json.dumps(dict(calls=cur)))
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.skipped = 0
        self.cov = collections.OrderedDict()
        self.samples = []
        self.violations = []
        self.assume = ["the specification in spec/ states the intended behaviour", "the harness records faithfully what the library returned (projection by public fields)",
                       "TLC and the CommunityModules Json module are correct"]

    def evidence(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples[:6])
        if self.skipped:
            cov["pairs_not_comparable"] = self.skipped
        cov.update(self.cov)
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, assumptions=self.assume,
                 wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1, ensure_ascii=False)
            f.write("\n")

    def violation(self, rid, why, detail, docs, lines, mode):
        d = os.path.join(ROOT, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        sha = hashlib.sha1((rid + why + "".join(x.text for x in docs)).encode()).hexdigest()[:12]
        p = os.path.join(d, sha + ".json")
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, id=rid, why=why, mode=mode, seed=self.seed, docs=[dict(id=x.id, text=x.text, fam=x.fam) for x in docs], records=lines, detail=detail), f, indent=1, ensure_ascii=False)
            f.write("\n")
        self.violations.append(p)
        print("%s: %s: %s" % (self.prop, rid, why))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()


def model_check(work, module, run, env={}, extra=()):
    rc, log = java(module, env, os.path.join(work, module + ".log"), extra)
    if OK not in log:
        raise Broken("TLC on %s: %s" % (module, log[-3000:]))
    st = STATES.findall(log)
    run.trans += int(st[-1][0])
    run.states += int(st[-1][1])
    run.cov["model_" + module] = "%s states, %s distinct, no violation" % st[-1]


def laws(work, run, thorough):
    """the laws of the rules, on the specification itself: all documents one edit away, or walks of some edits"""
    if thorough:
        log = model_check(work, "Laws", run, dict(EDITS_STEPS="1"), ("-workers", str(JOBS)))
    model_check(work, "AroundLaws", run, dict(EDITS_STEPS="1", AROUND_STEPS="1" if thorough else "0"), ("-workers", str(JOBS)))
    for module, num, what, env in [("Laws", 100 if thorough else 8, "walks of 1 to 4 edits", dict(EDITS_STEPS="4")),
                                   ("AroundLaws", 600 if thorough else 80, "faults with two circumstances", dict(EDITS_STEPS="1", AROUND_STEPS="2"))]:
        rc, log = java(module, env, os.path.join(work, module + ".log"), ("-workers", str(JOBS)) + walk(num, run.seed))
        m = re.search(r"Progress: (\d+) states checked, (\d+) traces generated(?!.*Progress:)", log, re.S)
        if "Error:" in log or not m:
            raise Broken("TLC on %s: %s" % (module, log[-3000:]))
        run.cov["model_%s_walks" % module] = "%s %s, %s states generated, no law is broken" % (m.group(2), what, m.group(1))


def outcomes(run, lines):
    n = collections.Counter()
    kinds = collections.Counter()
    for x in lines:
        m = re.search(r'"u":\{"st":"(\w+)"', x)
        c = re.search(r'"c":\{"st":"(\w+)"', x)
        if m and c:
            n["unchecked %s, checked %s" % (m.group(1), c.group(1))] += 1
            if m.group(1) == "ok" and c.group(1) == "err":
                g = re.search(r'"custom":true,"msg":"([^"\\]*)', x)
                if g:
                    kinds[" ".join(re.sub(r"'[^']*'", "_", g.group(1)).split()[:5])] += 1
    if n:
        run.cov["outcomes"] = dict(n)
    if kinds:
        run.cov["rejections_by_message"] = dict(kinds.most_common(40))


def account(run, judged):
    """how often the specification found which faults in the documents judged"""
    if not judged:
        return
    met, sole = collections.Counter(), collections.Counter()
    for ks, n in judged.items():
        for k in ks:
            if k != "?":
                met[k] += n
        if len(ks) == 1 and ks[0] != "?":
            sole[ks[0]] += n
    run.cov["documents_without_fault"] = judged[()]
    run.cov["documents_with_fault_of_kind"] = dict(sorted(met.items()))
    run.cov["documents_with_that_fault_alone"] = dict(sorted(sole.items()))
    run.cov["documents_left_open"] = judged[("?",)]


def decide_docs(run, p, work, thorough, docs=None):
    prop = run.prop
    pool = cf.ThreadPoolExecutor(JOBS)
    hook = p["mode"] == "relq"
    bld = pool.submit(build, hook)
    if docs is None:
        enum = cf.ThreadPoolExecutor(1).submit(scopes, pool, work, p["scopes"], run.seed, thorough)
        edited = cf.ThreadPoolExecutor(1).submit(edits, pool, work, *p["edits"], run.seed) if "edits" in p else None
        placed = cf.ThreadPoolExecutor(1).submit(around, pool, work, *p["around"], run.seed, thorough) if "around" in p else None
        with mp.Pool(4) as procs:
            docs = random_docs(procs, p["rand"], run.seed)
        if edited:
            docs += edited.result()
        if placed:
            docs += placed.result()
        counts = collections.Counter(re.split(r"[.]", d.id)[0] for d in docs)
        fams = {}
        for s, (ds, n) in sorted(enum.result().items()):
            docs = ds + docs
            fams[s] = "%d of %d" % (len(ds), n) if len(ds) < n else "all %d" % n
        run.times.append(("made", round(time.time() - run.t0, 1)))
        run.cov["documents"] = len(docs)
        run.cov["enumerated_families"] = fams
        run.cov["generated_documents"] = dict(counts)
        full = [s for s, n in p["scopes"] if n is None]
        if full:
            run.cov["exhaustive_families"] = full
    conf = bld.result()
    chars = sum(len(d.text) for d in docs)
    parts = split(docs, JOBS * max(1, -(-chars // 6_000_000)))
    limit = 20
    recorded = list(pool.map(lambda ds: harness(conf, p["mode"], ds, limit), parts))
    run.times.append(("recorded", round(time.time() - run.t0, 1)))
    by_id = {}
    rec_of = {}
    work_items = []
    for ds, ls in zip(parts, recorded):
        ds = ds[:len(ls)]
        for d, x in zip(ds, ls):
            by_id[d.id] = d
            rec_of[d.id] = x
        if p["spec"] == "CallsTrace":
            ls2 = sessions(ls)
        elif prop in ("C09", "C26", "C28"):
            ls2 = with_head(ls, ds)
        else:
            ls2 = ls
        work_items.append(ls2)
        run.traces += len(ls)
    outcomes(run, [x for ls in recorded for x in ls])
    fams = collections.defaultdict(list)
    for d in docs:
        if d.fam is not None:
            fams[d.fam].append(d)
    res = list(pool.map(lambda a: validate(work, a[0], p["spec"], prop, a[1]), enumerate(work_items)))
    judged = collections.Counter()
    for g, dist, rej, sk, jd in res:
        run.trans += g
        run.states += dist
        run.skipped += sk
        judged.update(jd)
        for rid, why, det in rej:
            d = by_id.get(rid)
            ds = [d] if d else []
            if d and d.fam is not None:
                ds = [fams[d.fam][0], d] if fams[d.fam][0].id != d.id else [d]
            run.violation(rid, why, det, ds, [rec_of[x.id] for x in ds], p["mode"])
    account(run, judged)
    r = random.Random(run.seed)
    for d in r.sample(docs, min(4, len(docs))):
        run.samples.append(dict(id=d.id, text=d.text[:400], record=rec_of.get(d.id, "")[:600]))


# ------------------------------------ histories (C11) ------------------------------------
def hist_docs(seed, n):
    out = []
    for i in range(n):
        r = random.Random("hist/%d/%d" % (seed, i))
        k = i % 6
        if k == 0:
            t = gen.text(gen.tokens(gen.make(r)), r, "random")
        elif k in (1, 2):
            d = gen.make(r, size=r.choice([2, 3, 4]))
            for f in r.sample(gen.ALL_FAULTS, r.choice([1, 3, 5])):
                d = inject(r, d, f) or d
            t = gen.text(gen.tokens(d), r, "lines")
        elif k == 3:
            t = gen.mutate_text(r, gen.text(gen.tokens(gen.make(r)), r, "lines"))
        elif k == 4:                     # the same length and beginning as another one
            t = out[-4][1]
            p = [x for x in range(len(t) // 2, len(t)) if t[x].isalnum() and t[x].isascii()]
            if p:
                x = r.choice(p)
                t = t[:x] + ("7" if t[x].isdigit() and t[x] != "7" else "q" if t[x] != "q" else "w") + t[x + 1:]
        else:                            # the same names with other contents
            a, b = r.sample(["int", "text", "bool", "e", "varchar(5)", "varchar(6)"], 2)
            t = ("Project p { database_type: 'PostgreSQL' }\nEnum e { v%d }\nTable a as x { i %s [unique%s]\n j %s }\nTable b { i %s [ref: > %s.i] }\nTable s.a { i %s }\nTableGroup g { %s b }\n"
                 % (r.randint(0, 3), a, r.choice(["", ", note: 'n'", ", default: 1"]), b, r.choice([a, a, b]), r.choice(["a", "x", "s.a", "public.a"]), b, r.choice(["a", "x", "s.a"])))
        out.append(("h%d" % i, t))
    return [Doc(i, t, None) for i, t in out]


SOAKED = ["Table t { a int }", "", "x", "Table t {", "Table t { a int }\nTable t { b int }", "Table t { a int\n a int }", "Table t { a varchar(2) [default: 'abc'] }", "Ref: t.a > u.b", "Table t { a int [pk]\n b int [pk] }",
          "Enum e { v v }", "TableGroup g { t }", "Table t { a int [unique] }\nTable u { a text [ref: > t.a] }", "Table t as x { a int [unique] }\nTable u { a int }\nRef: u.a > x.a\nRef: x.a < u.a", "Note: 'n'", "Table t { a e [default: w] }\nEnum e { v }",
          "Table t { a int [k: 99999999999999999999] }", "Table s.t { a int\n indexes { a [pk, unique] } }", "Table t { a decimal(1) }", "Table \"\u00e9\" { a int [note: '\U0001f600'] }", "// c"]


def soak_docs(seed, n):
    """short texts, most of them rejected, to be parsed many times; and many different ones, to be parsed a few times"""
    few = [Doc("f%d.%d" % (seed, k), ("Project p { }\n" if j else "") + t, None) for k, (j, t) in enumerate((j, t) for j in (0, 1) for t in SOAKED)]
    many = []
    for k in range(n):
        r = random.Random("soak/%d/%d" % (seed, k))
        t = [SOAKED[r.randrange(len(SOAKED))].replace("t", "t%d" % k, 1), "Project p { }\nTable t { a%d int\n a%d int }" % (k, k - k % 2), "Table t { a x%d }" % k, "Note: '%d'" % k, "Ref: a.b%d > c.d" % k][k % 5]
        many.append(Doc("m%d.%d" % (seed, k), t, None))
    return few, many


def soak(run, conf, env2, thorough):
    """long lives of a process: what the calls returned, by text"""
    few, many = soak_docs(run.seed, 4000 if thorough else 1500)
    jobs = [("few", few, None, 10000 if thorough else 3000), ("few", list(reversed(few)), env2, 300), ("many", many, None, 12 if thorough else 4), ("many", list(reversed(many)), env2, 2)]

    def one(j):
        name, ds, env, rounds = j
        try:
            r = subprocess.run([conf, "soak", str(rounds)], input=frames(ds), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700 if thorough else 300, env=env)
        except subprocess.TimeoutExpired:
            return None, "hang"
        if r.returncode:
            return None, "crash"
        return [json.loads(x) for x in r.stdout.decode().split("\n") if x], None
    with cf.ThreadPoolExecutor(4) as four:
        got = list(four.map(one, jobs))
    by = collections.OrderedDict()
    calls = 0
    for k, (lines, how) in enumerate(got):
        if how:
            run.violation("soak%d" % k, "a long history of calls does not end: " + how, "", [], [], "hist")
            continue
        for j in lines:
            if "calls" in j:
                calls += j["calls"]
            else:
                by.setdefault(j["doc"], []).append(dict(p=k, api=j["api"], doc=j["doc"], res=j["res"]))
    run.cov["calls_in_long_histories"] = calls
    run.cov["texts_in_long_histories"] = len(few) + len(many)
    keys = list(by)
    return few + many, [[c for d in keys[n:n + 200] for c in by[d]] for n in range(0, len(keys), 200)]


def decide_hist(run, p, work, thorough):
    pool = cf.ThreadPoolExecutor(JOBS)
    bld = pool.submit(build)
    mcs = [pool.submit(model_check, work, m, run) for m in p.get("mc", [])]
    groups = 8 if not thorough else 40
    nd, calls = 40, 400 if not thorough else 1000
    sets = [hist_docs(run.seed * 1000 + g, nd) for g in range(groups)]
    conf = bld.result()
    env2 = dict(os.environ, LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", TZ="Pacific/Apia", RUST_BACKTRACE="1", HOME="/nonexistent")

    def one(g):
        docs = sets[g]
        lines = []
        n = 0
        # two processes, the second with another environment, order and pace
        for k, (ds, env, th) in enumerate([(docs, None, 8), (list(reversed(docs)), env2, 3)]):
            try:
                r = subprocess.run([conf, "hist", str(th), str(calls), str(run.seed * 7 + g)], input=frames(ds), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240, env=env)
                how = None if r.returncode == 0 else "crash"
                got = r.stdout
            except subprocess.TimeoutExpired as e:
                how, got = "hang", e.stdout or b""
            if how:
                return docs, None, how
            for x in got.decode().split("\n"):
                if x:
                    j = json.loads(x)
                    lines.append(dict(p=j["p"] + 50 * k, api=j["api"], doc=j["doc"], res=j["res"]))
        return docs, lines, None

    # the histories of one group run one after another with the machine to themselves only in part; that is all the better
    with cf.ThreadPoolExecutor(4) as few:
        got = list(few.map(one, range(groups)))
    sdocs, sessions_ = soak(run, conf, env2, thorough)
    run.times.append(("recorded", round(time.time() - run.t0, 1)))
    items = []
    for k, lines in enumerate(sessions_):
        sets.append(sdocs)
        got.append((sdocs, lines, None))
    for g, (docs, lines, how) in enumerate(got):
        if how:
            run.violation("g%d" % g, "a history of calls does not end: " + how, "", docs, [], "hist")
        else:
            items.append((g, json.dumps(dict(calls=lines))))
            run.traces += len(lines)
    res = list(pool.map(lambda a: (a[0],) + validate(work, a[0], "CallsTrace", run.prop, [a[1]]), items))
    for g, a, b, rej, _, _ in res:
        run.trans += a
        run.states += b
        for rid, why, det in rej:
            run.violation("g%d.%s" % (g, rid), why, det, sets[g] if len(sets[g]) < 100 else [d for d in sets[g] if d.id == rid], [x for x in map(json.dumps, got[g][1]) if '"doc": "%s"' % rid in x][:40], "hist")
    for m in mcs:
        m.result()
    run.cov["histories"] = groups * 2
    run.cov["calls"] = sum(len(x[1]) for x in got if x[1])
    run.cov["texts"] = groups * nd
    run.cov["threads"] = [8, 3]
    for g in range(2):
        if got[g][1]:
            run.samples.append(dict(group=g, text=sets[g][5].text[:300], calls=got[g][1][:6]))


# ------------------------------------- forms (C25) -------------------------------------
def decide_forms(run, p, work, thorough, probes=None):
    pool = cf.ThreadPoolExecutor(JOBS)
    bld = pool.submit(build)
    if probes is None:
        out = os.path.join(work, "probes")
        rc, log = java("FormsGen", dict(SCOPE_OUT=out, SCOPE_SIZE=run.tier), out + ".log")
        if OK not in log:
            raise Broken("FormsGen: " + log[-2000:])
        probes = [json.loads(x) for x in open(out, encoding="utf-8")]
        for x in probes:
            x["txt"] = x["txt"].encode("utf-16", "surrogatepass").decode("utf-16")
        run.cov["probes"] = len(probes)
        run.cov["exhaustive"] = True
        run.cov["probes_by_kind"] = dict(collections.Counter(x["kind"] for x in probes))
    conf = bld.result()
    docs = [Doc(x["kind"], x["txt"], None) for x in probes]
    r = subprocess.run([conf, "probe"], input=frames(docs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    lines = [x for x in r.stdout.decode().split("\n") if x]
    if r.returncode:
        if len(lines) < len(docs):
            d = docs[len(lines)]
            run.violation(d.id, "a conversion does not return", "", [d], [], "probe")
            return
        raise Broken("probe: " + r.stderr.decode(errors="replace")[-500:])
    n = JOBS
    items = [(k, list(range(k, len(lines), n))) for k in range(n) if k < len(lines)]
    res = list(pool.map(lambda a: (a[1],) + validate(work, a[0], "FormsTrace", run.prop, [lines[i] for i in a[1]]), items))
    run.traces += len(lines)
    for idx, a, b, rej, _, _ in res:
        run.trans += a
        run.states += b
        for rid, why, det in rej:
            i = idx[int(rid) - 1]
            run.violation("%s.%d" % (docs[i].id, i), why, det, [docs[i]], [lines[i]], "probe")
    for i in random.Random(run.seed).sample(range(len(lines)), min(6, len(lines))):
        run.samples.append(json.loads(lines[i]))


def learn():
    """words in the source that were not there before join the vocabulary"""
    _, _, new, _ = vocab.vocabulary(REPO)
    for w in new[:20]:
        if vocab.nameable(w):
            for pool in (tiny.SCHEMAS, tiny.TABLES, tiny.ALIASES, tiny.COLS, tiny.VALS):
                pool.append(w)
            if "`" not in w:
                tiny.EXPRS.append(w)
            if tiny.is_words(w) and w != "ref":
                tiny.KEYS.append(w)
        if vocab.one_line(w) and "*/" not in w:
            gen.COMMENTS.extend(["// %s\n" % w, "/* %s */" % w, "//%s\n" % w, "/*%s*/" % w])


def decide(run, docs=None):
    learn()
    thorough = run.tier == "thorough"
    p = plan(run.prop, thorough)
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run.", dir=os.path.join(ROOT, "build"))
    run.times = []
    try:
        if p["mode"] == "hist":
            decide_hist(run, p, work, thorough)
        elif p["mode"] == "probe":
            decide_forms(run, p, work, thorough, docs and [dict(kind=d.id, txt=d.text) for d in docs])
        else:
            decide_docs(run, p, work, thorough, docs)
            for m in p.get("mc", []):
                model_check(work, m, run)
            if docs is None and p.get("laws"):
                laws(work, run, thorough)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--replay")
    a = a.parse_args()
    os.environ.pop("JAVA_TOOL_OPTIONS", None)
    try:
        if a.replay:
            j = json.load(open(a.replay))
            run = Run(j["property"], "quick", j.get("seed", 1))
            if j["mode"] == "hist":
                decide(run)
            else:
                decide(run, [Doc(d["id"], d["text"], d["fam"]) for d in j["docs"]])
            if not run.violations:
                print("%s: the recorded case conforms now" % run.prop)
            return 1 if run.violations else 0
        run = Run(a.prop, a.tier, a.seed)
        decide(run)
        run.evidence()
        if not run.violations:
            print("%s: %d traces conform, %d states, %.1f s %s" % (run.prop, run.traces, run.states, time.time() - run.t0, run.times))
        return 1 if run.violations else 0
    except Broken as e:
        print("the check failed: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
