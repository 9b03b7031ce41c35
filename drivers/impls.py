"""C28-C30: the Go, JavaScript and Python parsers read the documents the Rust parser is judged on."""
import json, os, queue, random, re, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import core
from .common import *

PY = "/opt/vp/pyenv/bin/python"
HARNESS = os.path.join(VERIF, "harness/impls")
IMPL = os.path.join(REPO, "implementations")
DEPTH = 150         # nesting the generated documents stay under (Python's own limit is about 300 levels)

def build(which, tmp):
    """A command that reads JSON strings and answers with trees; made from the sources as they are now."""
    if which == "C30":
        d = os.path.join(tmp, "py")
        shutil.copytree(os.path.join(IMPL, "styx-py/styx"), os.path.join(d, "styx"), ignore=shutil.ignore_patterns("__pycache__"))
        return [PY if os.path.exists(PY) else "python3", os.path.join(HARNESS, "py.py"), d]
    if which == "C29":
        d = os.path.join(tmp, "js")
        os.makedirs(os.path.join(d, "src"))
        src = os.path.join(IMPL, "styx-js/src")
        for f in sorted(os.listdir(src)):
            if not f.endswith(".test.ts"):
                shutil.copy(os.path.join(src, f), os.path.join(d, "src", f))
        shutil.copy(os.path.join(IMPL, "styx-js/tsconfig.json"), d)
        shutil.copy(os.path.join(IMPL, "styx-js/package.json"), d)
        sh(["node", "/opt/veriftools/node/node_modules/typescript/bin/tsc", "--noCheck", "-p", d], 120, cwd=d)
        return ["node", "--stack-size=900", os.path.join(HARNESS, "js.mjs"), os.path.join(d, "dist/index.js")]
    d = os.path.join(tmp, "go")
    os.makedirs(d)
    shutil.copy(os.path.join(HARNESS, "go/main.go.txt"), os.path.join(d, "main.go"))
    m = "github.com/bearcove/styx/implementations/styx-go"
    v = re.search(r"^go (\S+)", open(os.path.join(IMPL, "styx-go/go.mod")).read(), re.M)[1]
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write(f"module drive\n\ngo {v}\n\nrequire {m} v0.0.0\n\nreplace {m} => {IMPL}/styx-go\n")
    sh(["go", "build", "-o", "drive", "."], 400, cwd=d, GOFLAGS="-mod=mod", GOCACHE=os.path.join(BUILD, "gocache"))
    return [os.path.join(d, "drive")]

class Dead(Exception):
    pass

class Reader:
    """One process of an implementation."""
    def __init__(self, cmd):
        self.cmd, self.p = cmd, None
    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), cwd=BUILD, preexec_fn=limit(None, 800))
    def read(self, t, timeout=15):
        if self.p is None:
            self.start()
        done = threading.Event()
        late = []
        def watch():
            if not done.wait(timeout):
                late.append(1)
                self.p.kill()
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        try:
            self.p.stdin.write(json.dumps(t).encode() + b"\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            l = b""
        done.set()
        if not l:
            rc = self.p.wait()
            self.p = None
            raise Dead(f"no answer in {timeout} s" if late else f"the process ended with {rc}")
        return json.loads(l)
    def end(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait(20)

# -- trees alike: [key, value] pairs; values as the harnesses write them

def mine(v):
    r = {}
    if "s" in v and not v.get("g") and "sp" in v and v.get("k") != "heredoc":
        r["sp"] = list(v["sp"])
    if v.get("g"):
        r["g"] = v["g"][0] if len(v["g"]) == 1 else v["g"]
    for k in ("s", "k"):
        if k in v:
            r[k] = v[k]
    if "q" in v:
        r["q"] = [mine(x) for x in v["q"]]
    if "o" in v:
        r["o"] = entries(v["o"])
    return r
def entries(es):
    return [[mine(e[0]), mine(e[1])] for e in es]

def chains(es):
    """Does a value have more than one tag?"""
    def v(x):
        return len(x.get("g") or []) > 1 or any(v(y) for y in x.get("q", [])) or chains(x.get("o", []))
    return any(v(e[0]) or v(e[1]) for e in es)

def depth(t):
    d = m = 0
    for c in t:
        if c in "{(":
            d += 1
            m = max(m, d)
        elif c in "})":
            d -= 1
    return m

def differ(a, b, at="root"):
    """Where two trees first differ; the kind of difference names the failure."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k == "sp":
                continue
            if k not in a or k not in b:
                return at, {"g": "tag", "s": "scalar", "k": "scalar", "q": "sequence", "o": "object"}.get(k, k), a, b
            if k in "sgk" and a[k] != b[k]:
                what = {"s": f"text of {a.get('k')}", "k": "kind", "g": "tag"}[k]
                return at, what, a[k], b[k]
        for k in ("q", "o"):
            if k in a:
                r = differ(a[k], b[k], f"{at}.{k}")
                if r:
                    return r
        if a.get("sp") != b.get("sp"):
            return at, f"place of {a.get('k')}", a, b
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, f"{at}[{i}]")
            if r:
                return r
        if len(a) != len(b):
            return at, "length", len(a), len(b)
        return None
    return (at, "shape", a, b) if a != b else None

def judge(ctx, j, r, how):
    """One document: what is known of it (j) against what the implementation made of it (r)."""
    t = j["t"]
    if "crash" in r or "deep" in r:
        return ctx.fail("crash", f"{how}: {r}", text=t)
    if j["v"] == "unspecified":
        return ctx.count("only looked at for crashes")
    if j["v"] == "invalid":
        ctx.count("faulty documents")
        if "ok" in r:
            ctx.fail("accepts:" + j["kind"], f"{how}: accepted, though {j['kind']} at {j['at']}; the Rust parser says {j.get('error')!r}", text=t)
        else:
            ctx.count("refused as they should be")
        return
    if chains(j["ref"]):
        return ctx.count("chains of tags: not in the common language")
    ctx.count("valid documents")
    if "ok" not in r:
        return ctx.fail("refuses:" + re.sub(r"`[^`]*`|[^\x20-\x7e]|\d+", "_", r["error"])[:40], f"{how}: refused ({r['error']} at {r.get('sp')}), though it is valid", text=t)
    got = r["ok"]
    want = entries(j["ref"])
    if t.lstrip(" \t\r\n,").startswith(("{", "//")) and got != want and len(got) == 1 and got[0][0] == {} and set(got[0][1]) == {"o"}:
        got = got[0][1]["o"]        # the entries of a root object in braces; the Rust tree has them at the root
        ctx.count("root objects in braces")
    if got != want:
        if j.get("ok") and got == entries(j["tree"]):
            return ctx.count("as the Rust parser, not as the reference")
        at, what, a, b = differ(want, got) or ("?", "?", want, got)
        ctx.fail("differs:" + what, f"{how}: at {at}: expected {json.dumps(a, ensure_ascii=False)[:300]}, got {json.dumps(b, ensure_ascii=False)[:300]}", text=t)
    else:
        ctx.count("same trees")
        ctx.count("values compared", json.dumps(want).count("{"))

# -- documents that layouts of the generator reach seldom

FIXED = ["", "\n", "// c\n", "/// d\n", "a 1", "a", "a\n", "{a 1}", "{}", "{\n}", "a {}", "a ()", "a @", "a @t", "a @t@", "a @t()", "a @t{}", "a @t\"x\"", "a (1 2)", "a \"\\u{1F600}\"", "a \"\\u0041\"", "a \"\\u{}\"", "a \"\\u{110000}\"",
         "a \"\\uD800\"", "a \"\\u{D800}\"", "a \"\\u004\"", "a \"\\u{41\"", "a \"\\q\"", "a \"", "a \"x", "a r#\"x\"#", "a r\"x\"", "a r##\"x\"#\"##", "a r#x", "a r#", "a r", "a r#\"x", "a <<E\nE", "a <<E\nx\nE", "a <<E\nx\nE\n", "a <<E\n  x\n  E\n",
         "a <<E,rust\nx\nE\n", "a <<E\n\n\nE\n", "a <<EOF\nx", "a <<E", "a <<e\nx\ne\n", "a <<1\n", "a <<EAE_1\nx\nEAE_1\n", "a <<E\r\nx\r\nE\r\n", "a <<\u00c9\nx\n\u00c9\n", "a.b 1", "a.b 1\na.c 2", "a.b 1\nc 1\na.d 2", "a 1\na.b 2", "a.b 1\na 2", "a {b 1}\na.c 2", "x {a.b 1}",
         "a b>1", "a b>1 c>2", "a b>", "a b> 1", "a b >1", "a b>{c 1}", "a b>(1)", "a b>@t", "a b>@", "a b>\"x\" c>r#\"y\"#", "(b>1 c>2)\n", "a (b>1 c>2)", ">", "a > b", "a 1, b 2", ", a 1", "a 1,, b 2", "a (1, 2)", "a {b 1, c 2}", "a {b 1 c 2}", "a 1 2", "a b c", "a {b 1} c 2",
         "a 1}", "a 1)", "}", ")", "a {", "a (", "a (1", "a {b 1", "@t 1", "@ 1", "@", "\"k\" 1", "r#\"k\"# 1", "<<E\nk\nE\n1", "(1) 2", "{a 1} 2", "{a 1}\nb 2", "a 1\n{b 2}", "a {b 1}\na {c 1}", "a 1\na 2", "a 1\n\"a\" 2", "x {a 1\n\"a\" 2}", "a @1", "a @-x", "a @t.x", "a @t:x", "a @t/x", "a @tx y",
         "a @t 1", "a (@t 1)", "a //b", "a b//c", "a http://x/y", "a/b 1", "a /b", "a / b", "a =b", "a b=c", "#a 1", "a #b", "a .b", "a b.", ".a 1", "a. 1", "a..b 1", "a 1 // c", "a 1// c", "a {// c\n}", "a (// c\n1)", "/// d\na 1", "a 1\n/// d", "a {/// d\n}", "a {\n/// d\nb 1\n}",
         "a \t1", "a 1\r\nb 2\r\n", "a\r1", "\ufeffa 1", "a \u00e9", "\u00e9 1", "a \U0001F600", "\U0001F600 1", "a \"\U0001F600\"", "a <<E\n\U0001F600\nE\n", "a 1\u00a0", "a\u00a01", "a \x00", "a \x01", "a @t@u", "a @t@u\"x\"", "@a@b 1", "@t{} 1", "@t\"x\" 1", "\"a.b\" 1", "\"\" 1", "a \"\"", "a r\"\"", "a r##\"\"##",
         "a \"x\" b \"y\"", "a \"x\"\"y\"", "a \"x\"y", "a x\"y\"", "a (x\"y\")", "a {}b {}", "a(){}", "a{b 1}", "a(b)", "a{}\nb()", "a @t{}x", "a @{x 1}", "a @(x)", "a @\"x\"", "(a)(b)", "a ((1)(2))", "a ({}{})", "a (())", "a {{}}", "a {b {c {d 1}}}"]

def run(ctx):
    core.build(False)
    lang = {"C28": "Go", "C29": "JavaScript", "C30": "Python"}[ctx.prop]
    ctx.rule = f"a text counts as distinct by its bytes; the {lang} parser's answer is compared with the tree of the reference reader (which C02 and C03 hold the Rust parser to) or, if the specification leaves the text open, only looked at for crashes"
    ctx.assumptions += [f"nesting up to {DEPTH} levels", "lone surrogates cannot be passed to a parser of Unicode text and are not tried"]
    ctx.must += ["valid documents", "same trees", "faulty documents", "refused as they should be", "values compared"]
    with Scratch("impls") as tmp:
        cmd = build(ctx.prop, tmp)
        n = 6000 if ctx.thorough else 900
        def texts():
            t0 = time.time()
            exe = os.path.join(TARGET, "debug", "vlight")
            p = subprocess.run([exe, "gen", "serve"], input="".join(json.dumps({"t": t}) + "\n" for t in FIXED).encode(), stdout=subprocess.PIPE, timeout=200, env=env())
            for l in p.stdout.splitlines():
                yield "fixed", json.loads(l)
            for what, m in (("gen", n * 2), ("mut", n * 3), ("soup", n * 2), ("plain", n // 3), ("big", n // 12)):
                if not ctx.thorough and time.time() - t0 > 60:
                    return ctx.count("cut by time")
                for j in core.generate(ctx, what, m):
                    if depth(j["t"]) <= DEPTH:
                        yield what, j
        lock = threading.Lock()
        src = texts()
        def work(_):
            rd = Reader(cmd)
            while True:
                with lock:
                    x = next(src, None)
                if x is None:
                    return rd.end()
                what, j = x
                try:
                    r = rd.read(j["t"])
                except Dead as e:
                    r = None
                    dead = str(e)
                with lock:
                    ctx.eval(j["t"])
                    ctx.count("texts: " + what)
                    if r is None:
                        ctx.fail("dead", f"{lang}: {dead}", text=j["t"])
                    else:
                        judge(ctx, j, r, lang)
                        if what == "gen":
                            ctx.sample(j["t"][:300])
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(work, range(6)))
