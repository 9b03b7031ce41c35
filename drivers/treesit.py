"""C31, C32: the editor grammar (crates/tree-sitter-styx/src) with the tree-sitter runtime, under sanitizers."""
import glob, json, os, random, subprocess
from . import core
from .common import *

SRC = os.path.join(REPO, "crates/tree-sitter-styx/src")

def build():
    m = re.search(r'name = "tree-sitter"\nversion = "([^"]+)"', open(os.path.join(REPO, "Cargo.lock")).read())
    dirs = glob.glob(f"/root/.cargo/registry/src/*/tree-sitter-{m[1]}") or sorted(glob.glob("/root/.cargo/registry/src/*/tree-sitter-0.*"))
    if not dirs:
        raise Undecided("the tree-sitter runtime's sources are not there")
    ts = dirs[-1]
    out = os.path.join(BUILD, "treesit")
    os.makedirs(out, exist_ok=True)
    inc = ["-I", os.path.join(ts, "include"), "-I", os.path.join(ts, "src"), "-I", SRC]
    exe = os.path.join(out, "drive")
    lib = os.path.join(out, f"runtime-{m[1]}.o")
    def cc(o, src, *flags):
        return subprocess.Popen(["clang", "-g", "-O1", "-c", *flags, *inc, src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    with Lock():
        san = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"]
        jobs, objs = [], [lib]
        if not os.path.exists(lib):
            jobs.append((lib, cc(lib + ".new", os.path.join(ts, "src/lib.c"), "-fsanitize=address")))
        for f in sorted(glob.glob(os.path.join(SRC, "*.c"))) + [os.path.join(VERIF, "harness/treesit/drive.c")]:
            o = os.path.join(out, os.path.basename(f) + ".o")
            objs.append(o)
            jobs.append((o, cc(o, f, *san)))
        for o, p in jobs:
            t = p.communicate(timeout=300)[0]
            if p.returncode:
                raise Undecided(f"{o}: {t.decode()[-3000:]}")
        if os.path.exists(lib + ".new"):
            os.rename(lib + ".new", lib)
        sh(["clang", "-fsanitize=address,undefined", *objs, "-o", exe], 120)
    return exe

class Dead(Exception):
    pass

class Parser:
    def __init__(self, exe):
        self.exe, self.p = exe, None
        self.nodes = 0
        self.start()
    def start(self):
        self.err = open(os.path.join(BUILD, f"treesit-{os.getpid()}.err"), "w+b")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, preexec_fn=limit(None, 800),
                                  env=env(ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1"))
    def ask(self, head, body):
        try:
            self.p.stdin.write(head + b"\n" + body)
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except BrokenPipeError:
            r = b""
        if not r:
            rc = self.p.wait()
            self.err.seek(0)
            e = self.err.read()[-2500:].decode("utf-8", "replace")
            self.start()
            raise Dead("does not finish in 20 s" if rc == -14 else f"ended with {rc}: {e}")
        if r.startswith(b"FAIL"):
            raise Dead(r.decode().strip())
        return r
    def parse(self, b):
        r = self.ask(b"p %d" % len(b), b)
        return r[0] == 48, r[2:]
    def edit(self, new, start, old_end, new_end):
        """-> (edited tree has no error, fresh tree has no error, same, fresh tree)"""
        r = self.ask(b"e %d %d %d %d" % (start, old_end, new_end, len(new)), new)
        return r[0] == 48, r[2] == 48, r[4] == 49, r[6:]
    def end(self):
        self.p.stdin.close()
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode("utf-8", "replace")
        os.remove(self.err.name)
        m = re.search(r"nodes (\d+)", e)
        self.nodes = int(m[1]) if m else 0
        return rc, e

def report(ctx, e, text, how):
    m = re.search(r"(heap-\S+|stack-\S+|global-\S+|runtime error: [^\n]*|does not finish|FAIL [^\n]*)", str(e))
    ctx.fail("ts:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m[1] if m else "dead")[:60], f"{how}: {e}", text=text)

# -- C31: any bytes

PIECES = [b"@", b"@a", b"@tag", b"r", b"r#", b'r#"', b'"#', b'"', b"##", b"#" * 260, b"<<", b"<<E", b"<<EOF\n", b"EOF", b"EOF\n", b"  EOF\n", b",lang", b",", b"\n", b"\r\n", b"\r", b"\t", b" ", b"{", b"}", b"(", b")", b">", b"=",
          b"//", b"///", b"/// d\n", b"// c\n", b"a", b"a.b", b"\\", b"\\u{", b"\\n", b"\0", b"\xff", b"\xc3", b"\xf0\x9f\x98\x80", b"\xe2\x80", b"<<" + b"A" * 15, b"<<" + b"A" * 16, b"<<" + b"A" * 17, b"<<" + b"A" * 300 + b"\n", b"A" * 16 + b"\n", b"@@", b"<<E,c\n", b"\nE", b"<<E\r\n", b"x>", b"@a@"]

def soup(r):
    return b"".join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 30, 60])))

def spoil(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        i = r.randrange(len(b) + 1)
        x = r.random()
        if x < 0.3:
            b[i:i] = r.choice(PIECES)
        elif x < 0.55:
            del b[i:i + r.choice([1, 1, 2, 5, 20])]
        elif x < 0.7:
            del b[i:]
        elif x < 0.8:
            b[i:i + 1] = bytes([r.randrange(256)])
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.choice([1, 5, 20, 60])]
    return bytes(b)

def between(a, b):
    """Where two texts differ: start, end in a, end in b."""
    n = min(len(a), len(b))
    i = next((k for k in range(n) if a[k] != b[k]), n)
    j = next((k for k in range(n - i) if a[-1 - k] != b[-1 - k]), n - i)
    return i, len(a) - j, len(b) - j

def safety(ctx, exe, docs):
    r = random.Random(ctx.seed)
    p = Parser(exe)
    ctx.rule = "one text parsed, or one edit reparsed; distinct by text"
    ctx.must += ["parses", "reparses", "trees with errors", "trees without errors"]
    texts = [d["t"].encode() for d in docs]
    for k in range(len(texts) * 3):
        t = texts[k] if k < len(texts) else spoil(r, r.choice(texts)) if r.random() < 0.6 else soup(r)
        ctx.eval(t)
        ctx.sample(repr(t[:300]))
        try:
            ok, tree = p.parse(t)
            ctx.count("parses")
            ctx.count("trees without errors" if ok else "trees with errors")
            for _ in range(r.choice([0, 1, 1, 3])):
                new = spoil(r, t)
                s, oe, ne = between(t, new)
                ctx.eval(new)
                p.edit(new, s, oe, ne)
                ctx.count("reparses")
                t = new
        except Dead as e:
            report(ctx, e, t, "parsing")
            if len(ctx.violations) > 6:
                break
    # the scanner state crosses calls: every length of delimiter and every number of marks around the limits
    for n in list(range(1, 20)) + [254, 255, 256, 257, 300]:
        for t in (b"a <<" + b"A" * n + b"\n x\n " + b"A" * n + b"\n", b"a r" + b"#" * n + b'"x"' + b"#" * n + b"\n", b"a <<" + b"A" * n, b"a <<" + b"A" * n + b",l", b"a r" + b"#" * n + b'"'):
            try:
                ctx.eval(t)
                p.parse(t)
                p.edit(b"b" + t, 0, 0, 1)
            except Dead as e:
                report(ctx, e, t, "scanner state")
    for n, t in (("long", b"a b\n" * 60000), ("deep", b"a {" * 900), ("open", b"a <<X\n" + b"line\n" * 60000), ("raw", b'a r#"' + b'"' * 100000), ("parens", b"(" * 900 + b")" * 900), ("at", b"@" * 3000), ("comment", b"//" * 100000)):
        try:
            ctx.eval(n)
            p.parse(t)
        except Dead as e:
            report(ctx, e, t[:200], n)
    rc, e = p.end()
    ctx.count("tree nodes", p.nodes)
    if rc:
        ctx.fail("ts:end", f"ended with {rc}: {e[-2000:]}")
    ctx.assumptions = ["the tree-sitter runtime of the lock file, compiled with AddressSanitizer, stands for the editors' one"]

# -- C32: structure

class Gap(Exception):
    """Something of the language that the grammar is known not to have."""

def limits(v, b):
    """Raises Gap for what known-findings.txt lists."""
    if isinstance(v, list):
        for e in v:
            limits(e[1], b)
        return
    if len(v.get("g", ())) > 1:
        raise Gap("tag chain")
    if "o" in v:
        limits(v["o"], b)
    for x in v.get("q", ()):
        limits(x, b)

KIND = {"bare_scalar": "bare", "quoted_scalar": "quoted", "raw_scalar": "raw", "heredoc": "heredoc"}
kids = lambda n: [c for c in n[5:] if c[3]]

def one(n, field):
    return next((c for c in n[5:] if c[4] == field), None)

def diff_scalar(n, v, b, at):
    if "s" not in v or v["k"] != KIND.get(n[0]):
        return f"{at}: {n[0]} where the document has {v.get('k', 'no scalar')}"

def diff_payload(n, v, b, at):
    if n[0] == "scalar":
        return diff_scalar(kids(n)[0], v, b, at)
    if n[0] in KIND:
        return diff_scalar(n, v, b, at)
    if n[0] == "unit":
        return None if not {"s", "q", "o"} & set(v) else f"{at}: a unit where the document has a value"
    if n[0] == "sequence":
        if "q" not in v:
            return f"{at}: a sequence where the document has none"
        items = [c for c in kids(n) if c[0] == "expr"]
        if len(items) != len(v["q"]):
            return f"{at}: {len(items)} items where the document has {len(v['q'])}"
        for i, (c, x) in enumerate(zip(items, v["q"])):
            d = diff_expr(c, x, b, f"{at}[{i}]")
            if d:
                return d
        return None
    if n[0] == "object":
        return diff_entries(kids(n), v["o"], b, at) if "o" in v else f"{at}: an object where the document has none"
    return f"{at}: {n[0]}"

def diff_expr(n, v, b, at):
    if [n[1], n[2]] != v["sp"]:
        return f"{at}: {b[n[1]:n[2]]!r} where the document has {b[v['sp'][0]:v['sp'][1]]!r}"
    a = next((c for c in kids(n) if c[0] == "attributes"), None)
    if a is not None:
        if "o" not in v:
            return f"{at}: attributes where the document has none"
        es = kids(a)
        if len(es) != len(v["o"]):
            return f"{at}: {len(es)} attributes where the document has {len(v['o'])}"
        for c, e in zip(es, v["o"]):
            k = one(c, "key")
            if b[k[1]:k[2]].decode() != e[0]["s"]:
                return f"{at}: attribute {b[k[1]:k[2]]!r}, not {e[0]['s']!r}"
            x = one(c, "value")
            if [x[1], x[2]] != e[1]["sp"]:
                return f"{at}.{e[0]['s']}: {b[x[1]:x[2]]!r}"
            d = (diff_expr if x[0] == "expr" else diff_payload)(x, e[1], b, f"{at}.{e[0]['s']}")
            if d:
                return d
        return None
    t, p = one(n, "tag"), one(n, "payload")
    tag = b[t[1] + 1:t[2]].decode() if t else None
    if tag != (v["g"][0] if v.get("g") else None):
        return f"{at}: tag {tag!r}, not {v.get('g')}"
    if p is None:
        return None if not {"s", "q", "o"} & set(v) else f"{at}: the payload is missing"
    return diff_payload(p, v, b, at)

def diff_entries(nodes, ents, b, at, top=False):
    es = [c for c in nodes if c[0] == "entry"]
    if len(es) != len(ents):
        return f"{at}: {len(es)} entries where the document has {len(ents)}"
    docs, doc = [], False
    for c in nodes:
        if c[0] == "doc_comment":
            doc = True
        elif c[0] == "entry":
            docs.append(doc)
            doc = False
    for c, e, doc in zip(es, ents, docs):
        k, x = one(c, "key"), one(c, "value")
        key, val = e[0], e[1]
        p = one(k, "payload")
        text = b[k[1]:k[2]].decode("utf-8", "replace")
        where = f"{at}.{text}"
        if doc != (len(e) > 2):
            if not (len(e) < 3 and top and "." in text):
                return f"{where}: {'a' if doc else 'no'} doc comment"
        if top and key.get("k") == "bare" and p and p[0] == "scalar" and kids(p)[0][0] == "bare_scalar" and "." in text:
            path = [key["s"]]
            while len(path) < text.count(".") + 1 and val.get("o"):
                key, val = val["o"][0][0], val["o"][0][1]
                path.append(key["s"])
            if ".".join(path) != text:
                return f"{where}: the path is {path}"
        else:
            d = diff_expr(k, key, b, where + " key")
            if d:
                return d
        if x is None:
            if val.get("g") or {"s", "q", "o"} & set(val):
                return f"{where}: the value is missing"
        else:
            d = diff_expr(x, val, b, where)
            if d:
                return d

def document(tree, d, b):
    n = json.loads(tree)
    nodes = kids(n)
    es = [c for c in nodes if c[0] == "entry"]
    if len(es) == 1 and one(es[0], "value") is None:
        k = one(es[0], "key")
        p = one(k, "payload")
        if p and p[0] == "object" and not one(k, "tag"):
            return diff_entries(kids(p), d["ref"], b, "", True)
    return diff_entries(nodes, d["ref"], b, "", True)

def structure(ctx, exe, docs):
    r = random.Random(ctx.seed)
    p = Parser(exe)
    ctx.rule = "one valid document, or one edit leading to a text without errors; distinct by text"
    ctx.must += ["documents", "values", "edits compared"]
    prev = None
    for d in docs:
        b = d["t"].encode()
        if d["v"] != "valid" or b"\0" in b or not d.get("ok"):
            continue
        try:
            limits(d["ref"], b)
            if b[:3] == b"\xef\xbb\xbf":
                raise Gap("the tree-sitter runtime drops a byte order mark")
            if b"#" * 256 in b:
                raise Gap("more than 255 marks")
        except Gap as e:
            ctx.count(f"skipped: {e}")
            continue
        ctx.eval(b)
        ctx.sample(d["t"][:300])
        try:
            ok, tree = p.parse(b)
            ctx.count("documents")
            ctx.count("values", tree.count(b'"payload"'))
            if not ok:
                m = re.search(rb'\["(ERROR|MISSING [a-z_]*)",(\d+),(\d+)', tree)
                at = int(m[2]) if m else 0
                ctx.fail("ts:error", f"a valid document has an error node at {at}: {b[max(0, at - 30):at + 30]!r}", text=d["t"])
                continue
            diff = document(tree, d, b)
            if diff:
                ctx.fail("ts:structure", diff, text=d["t"])
                continue
            # edit to another text and back; where the result is valid, as from scratch
            for _ in range(r.choice([0, 1, 2])):
                mid = spoil(r, b).replace(b"\0", b"") if prev is None or r.random() < 0.8 else prev
                for old, new in ((b, mid), (mid, b)):
                    s, oe, ne = between(old, new)
                    ei, ef, same, fresh = p.edit(new, s, oe, ne)
                    if ef:
                        ctx.eval(new + b"%d" % s)
                        ctx.count("edits compared")
                        if not same:
                            ctx.fail("ts:incremental", f"after replacing {s}..{oe} of {old[:400]!r} by {new[s:ne]!r} the tree {'has errors' if not ei else 'differs'}, parsed anew it has none", text=new, before=old)
            prev = b
        except Dead as e:
            report(ctx, e, d["t"], "parsing")
            if len(ctx.violations) > 6:
                break
    for pid, t in (("tag-chain", "a @b/@c{d 1}\n"), ("many-marks", "a r" + "#" * 256 + '"x"' + "#" * 256 + "\n")):
        ok, tree = p.parse(t.encode())
        ctx.probe(pid, not ok, f"{t[:60]!r} has an error node", text=t)
    rc, e = p.end()
    if rc:
        ctx.fail("ts:end", f"ended with {rc}: {e[-2000:]}")
    ctx.assumptions = ["the tree-sitter runtime of the lock file stands for the editors' one", "the reference reader's structure of the document, confirmed by the real tree builder accepting it"]

def run(ctx):
    core.build(False)
    exe = build()
    docs = []
    k = 15 if ctx.thorough else 1 if ctx.prop == "C31" else 2
    for what, n in (("plain", 1200 * k), ("gen", 1200 * k), ("big", 30 * k)) + ((("mut", 700 * k), ("soup", 400 * k)) if ctx.prop == "C31" else ()):
        docs += core.generate(ctx, what, n)
    (safety if ctx.prop == "C31" else structure)(ctx, exe, docs)
