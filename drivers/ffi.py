"""C22: the C library under AddressSanitizer, driven with random call sequences by harness/ffi/drive.c."""
import json, os, random, subprocess
from . import core
from .common import *

TRIPLE = "x86_64-unknown-linux-gnu"
def build():
    asan = os.path.join(BUILD, "asan")
    with Lock():
        fp = os.path.join(asan, TRIPLE, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("styx"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        sh(["cargo", "+nightly", "build", "-p", "styx-ffi", "--target", TRIPLE, "--offline", "--locked"], 800, cwd=REPO, CARGO_TARGET_DIR=asan,
           RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1", RUSTUP_TOOLCHAIN="nightly-" + TRIPLE)
        exe = os.path.join(BUILD, "ffidrive")
        sh(["clang", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-Wall", "-Werror", "-Wno-nonnull", "-I", os.path.join(REPO, "crates/styx-ffi/include"),
            os.path.join(VERIF, "harness/ffi/drive.c"), os.path.join(asan, TRIPLE, "debug", "libstyx_ffi.a"), "-o", exe, "-lpthread", "-ldl", "-lm"], 120)
    return exe

class Dead(Exception):
    pass

class Lib:
    def __init__(self, exe):
        self.log = []
        self.err = open(os.path.join(BUILD, f"ffi-{os.getpid()}.err"), "w+b")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1", RUST_BACKTRACE="0"),
                                  preexec_fn=limit(None, 600))
    def call(self, cmd, slot=0, *args):
        """args: numbers and texts"""
        l = " ".join([cmd, str(slot)] + [str(a) if isinstance(a, int) else a.hex() for a in args])
        self.log.append(l)
        if len(self.log) > 4000:
            del self.log[:2000]
        try:
            self.p.stdin.write(l.encode() + b"\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except BrokenPipeError:
            r = b""
        if not r:
            rc = self.p.wait()
            self.err.seek(0)
            raise Dead(f"the process ended ({rc}) in {cmd}: " + self.err.read()[-3000:].decode("utf-8", "replace"))
        if r.startswith(b"FAIL"):
            raise Dead(r.decode().strip())
        return json.loads(r) if r[:2] != b"ok" else None
    def end(self):
        self.p.stdin.close()
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode("utf-8", "replace")
        os.remove(self.err.name)
        return rc, e

hx = lambda s: s.encode().hex()
KIND = {"s": 1, "q": 2, "o": 3}

def nul(v):
    """Some text in it cannot be a C string."""
    if isinstance(v, str):
        return "\0" in v
    if isinstance(v, dict):
        return any(nul(v[k]) for k in ("s", "q", "o", "g") if k in v)
    return any(nul(x) for x in v)

def differ(at, want, got, ids):
    """Compare a value of the library's tree with what the C interface showed; fills ids."""
    kind = next((KIND[k] for k in "sqo" if k in want), 0)
    if got["k"] != kind:
        return f"{at}: kind {got['k']}, not {kind}"
    tag = want.get("g")
    if got.get("g") != (hx(tag[0]) if tag else None):
        return f"{at}: tag {got.get('g')!r}, not {tag}"
    if got["u"] != (0 if tag or kind else 1):
        return f"{at}: unit {got['u']}"
    if got.get("s") != (hx(want["s"]) if kind == 1 else None):
        return f"{at}: text {got.get('s')!r}, not {want.get('s')!r}"
    ids.append((got["id"], want))
    if ("q" in got) != (kind == 2) or ("o" in got) != (kind == 3):
        return f"{at}: a handle of another kind"
    if kind == 2:
        if len(got["q"]) != len(want["q"]):
            return f"{at}: {len(got['q'])} items, not {len(want['q'])}"
        for i, (w, g) in enumerate(zip(want["q"], got["q"])):
            d = differ(f"{at}[{i}]", w, g, ids)
            if d:
                return d
    if kind == 3:
        return entries(at, want["o"], got["o"], ids)

def entries(at, want, got, ids):
    ids.append((got["id"], want))
    if len(got["e"]) != len(want):
        return f"{at}: {len(got['e'])} entries, not {len(want)}"
    for i, (w, g) in enumerate(zip(want, got["e"])):
        d = differ(f"{at} key {i}", w[0], g[0], ids) or differ(f"{at}.{w[0].get('s', '@')}", w[1], g[1], ids)
        if d:
            return d

def plain(k):
    return k.get("s") if "g" not in k else None

def look(v, segs):
    """The value at a path below v, in entry order; v is a value or a list of entries."""
    es = v if isinstance(v, list) else v.get("o")
    s = segs[0]
    if es is not None and isinstance(s, str):
        for e in es:
            if plain(e[0]) == s:
                r = e[1] if len(segs) == 1 else look(e[1], segs[1:])
                if r is not None:
                    return r
    elif isinstance(s, int) and not isinstance(v, list) and "q" in v and s < len(v["q"]):
        return v["q"][s] if len(segs) == 1 else look(v["q"][s], segs[1:])

def paths(v, out, pre):
    if len(pre) > 7 or len(out) > 60:
        return
    es = v if isinstance(v, list) else v.get("o")
    if es is not None:
        for e in es:
            k = plain(e[0])
            if k and not set(k) & set(".[]\0"):
                out.append(pre + [k])
                paths(e[1], out, pre + [k])
    elif "q" in v:
        for i, x in enumerate(v["q"]):
            out.append(pre + [i])
            paths(x, out, pre + [i])

def text(r, segs):
    s = ""
    for x in segs:
        s += f"[{x}]" if isinstance(x, int) else ("." if s else "") + x
    return s.encode()

def garble(r, segs):
    segs = list(segs)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(segs))
        segs[i] = r.choice([0, 1, 99, 2**63, 2**64 + 1, "nope", "é", str(segs[i]) + "x", *([segs[i]] * 3)])
        if r.random() < 0.3:
            segs.append(r.choice(["x", 0]))
    return segs

WILD = [b"", b".", b"..", b"[", b"]", b"[]", b"[0", b"[-1]", b"[+0]", b"[ 0]", b"[00]", b"[18446744073709551616]", b"a[", b"a.", b".a", b"a..b", b"\xff", b"a\xc3", b"[\xf0\x9f]", b"@", b"[0][0][0]", b"\xc3\xa9.[0]", b"]["]
BAD = [b"", b" ", b"\n", b"\xff", b"a \xff", b"\xc3", b"a \xed\xa0\x80", b"\xef\xbb\xbfa 1", b"{", b"a {", b"(", b"\"", b"a \"\\", b"<<", b"a <<", b"@", b"@a@b@c", b"\xf4\x90\x80\x80 1", b"a <<X\n", b"r#\"", b"a 1" * 3000, b"(" * 300, b"a{" * 200, b"a " + b"@t{a " * 150 + b"}" * 150, b"a " + b"x" * 100000]

def run(ctx):
    core.build(False)
    exe = build()
    docs = []
    k = 40 if ctx.thorough else 3
    for what, n in (("gen", 350 * k), ("mut", 350 * k), ("soup", 200 * k), ("plain", 150 * k), ("big", 12 * k)):
        docs += [d for d in core.generate(ctx, what, n) if "\0" not in d["t"] and "panic" not in d]
    r = random.Random(ctx.seed)
    r.shuffle(docs)
    ctx.rule = "one document or lookup; distinct by text of the document or document and path"
    ctx.must += ["documents", "errors", "lookups found", "lookups not found", "wild lookups", "frees", "threaded reads", "heap checks"]
    lib = Lib(exe)
    state = {}   # slot -> (doc, ids by python identity)
    def free(s):
        lib.call("f", s)
        ctx.count("frees")
        del state[s]
    def one(s, d):
        res = lib.call("p", s, d["t"].encode())
        ctx.eval(d["t"])
        if "error" in res:
            ctx.count("errors")
            msg = bytes.fromhex(res["error"]).decode()
            if d["ok"]:
                return ctx.fail("ffi:rejects", f"styx_parse fails ({msg}) where the library parses", text=d["t"])
            if msg != d["error"]:
                return ctx.fail("ffi:error", f"styx_parse says {msg!r}, the library {d['error']!r}", text=d["t"])
            return
        if not d["ok"]:
            lib.call("f", s)
            return ctx.fail("ffi:accepts", f"styx_parse succeeds where the library says {d['error']!r}", text=d["t"])
        ctx.count("documents")
        if nul(d["tree"]):
            ctx.count("texts with NUL")
            return free_quiet(s)
        got = lib.call("w", s)
        ids = []
        diff = entries("root", d["tree"], got, ids)
        if diff:
            ctx.fail("ffi:tree", diff, text=d["t"])
            return free_quiet(s)
        state[s] = (d, {id(v): n for n, v in ids}, [v for _, v in ids if isinstance(v, dict)], [v for _, v in ids if isinstance(v, list)])
    def free_quiet(s):
        lib.call("f", s)
        ctx.count("frees")
    def query(s):
        d, ids, vals, objs = state[s]
        x = r.random()
        ctx.eval(d["t"] + repr(x))
        if x < 0.15:   # anything at all: nothing found, or something of the document
            p = r.choice(WILD)
            ctx.count("wild lookups")
            y = r.random()
            if y < 0.4 or not vals:
                lib.call("g", s, p)
            elif y < 0.8:
                lib.call("v", s, ids[id(r.choice(vals))], p)
            else:
                lib.call("o", s, ids[id(r.choice(objs))], p)
            return
        if x < 0.2:
            lib.call("t", s)
            return ctx.count("threaded reads")
        if x < 0.5 and objs:   # by key
            o = r.choice(objs)
            keys = [e[0]["s"] for e in o if "s" in e[0]]
            key = r.choice(keys) if keys and r.random() < 0.8 else r.choice(["", "nope", "@", "é", "a"])
            want = next((e[1] for e in o if plain(e[0]) == key), None)
            got = lib.call("o", s, ids[id(o)], key.encode())
            how = f"styx_object_get of {key!r}"
        else:
            start = d["tree"] if x < 0.8 or not vals else r.choice(vals)
            ps = []
            paths(start, ps, [])
            segs = r.choice(ps) if ps else ["a"]
            if r.random() < 0.35:
                segs = garble(r, segs)
            if isinstance(start, list) and isinstance(segs[0], int):
                return
            want = look(start, segs)
            p = text(r, segs)
            got = lib.call("g", s, p) if isinstance(start, list) else lib.call("v", s, ids[id(start)], p)
            how = f"{'styx_document_get' if isinstance(start, list) else 'styx_value_get'} of {p.decode()!r}"
        ctx.count("lookups found" if want is not None else "lookups not found")
        w = None if want is None else ids[id(want)]
        if got != w:
            ctx.fail("ffi:lookup", f"{how} gives value {got}, the tree has {w}", text=d["t"])
    try:
        warm = [d for d in docs if d["ok"] and not nul(d["tree"])][:3] + [d for d in docs if not d["ok"]][:3]
        for rep in range(2):
            for d in warm:
                one(0, d)
                if 0 in state:
                    for _ in range(30):
                        query(0)
                    lib.call("t", 0)
                    free(0)
            lib.call("n")
            base = lib.call("b")
        for i, d in enumerate(docs):
            s = r.randrange(64)
            if s in state:
                free(s)
            one(s, d)
            for _ in range(4):
                if state:
                    query(r.choice(list(state)))
            if i % 100 == 99:
                for s in list(state):
                    free(s)
                lib.call("n")
                now = lib.call("b")
                ctx.count("heap checks")
                if now > base + 64:
                    ctx.fail("ffi:leak", f"{now - base} bytes are still allocated after everything was freed", log=lib.log[-600:])
                    base = now
        for b in BAD:
            ctx.eval(b)
            res = lib.call("p", 0, b)
            try:
                b.decode()
            except UnicodeDecodeError:
                if "error" not in res:
                    ctx.fail("ffi:utf8", f"text that is not UTF-8 is accepted: {b[:40]!r}")
            if "error" not in res:
                lib.call("w", 0)
                lib.call("f", 0)
        # a text with a NUL in it: known to be out of reach of the interface
        lib.call("p", 0, b'a "x\\u{0}y"')
        got = lib.call("w", 0)
        v = got["e"][0][1]
        ctx.probe("nul-text", v["k"] == 1 and v.get("s") is None, "styx_value_scalar gives null for a scalar whose text has a NUL in it")
        lib.call("f", 0)
        for s in list(state):
            free(s)
        rc, err = lib.end()
        m = re.search(r"calls (\d+)", err)
        ctx.count("C calls", int(m[1]) if m else 0)
        if rc or "Sanitizer" in err or "runtime error" in err:
            ctx.fail("ffi:sanitizer", f"ended with {rc}: {err[-1500:]}")
    except Dead as e:
        m = re.search(r"(heap-\S+|double-free|stack-overflow|panicked at [^\n]*|SEGV|FAIL [^\n]*)", str(e))
        ctx.fail("ffi:dead:" + (m[1] if m else "?")[:60], str(e), log=lib.log[-200:])
    for d in docs[:3]:
        ctx.sample(d["t"][:300])
    # every function of the header is in the library, and the other way round
    nm = sh(["nm", "-D", "--defined-only", os.path.join(BUILD, "asan", TRIPLE, "debug", "libstyx_ffi.so")], 60)
    have = set(re.findall(r" T (styx_\w+)", nm))
    decl = set(re.findall(r"\b(styx_\w+)\(", re.sub(r"/\*.*?\*/", "", open(os.path.join(REPO, "crates/styx-ffi/include/styx.h")).read(), flags=re.S)))
    ctx.count("functions", len(decl))
    if have != decl:
        ctx.fail("ffi:symbols", f"declared but not exported: {sorted(decl - have)}; exported but not declared: {sorted(have - decl)}")
    ctx.assumptions = ["Rust's standard library itself is not instrumented", "texts with a NUL character cannot be passed to or from C"]
