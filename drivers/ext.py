"""C34, C35: the language server and the extension programs that schemas name."""
import glob, itertools, json, os, random, re, shutil, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import core
from .common import *
from .lsp import Gone, Library, Server, Text, short, uri_of

HARNESS = os.path.join(VERIF, "harness", "ext")

def build():
    with Lock():
        refresh()
        sh(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")], 800)
        shim = os.path.join(BUILD, "fault.so")
        sh(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(VERIF, "harness/shim/fault.c"), "-ldl"], 60)
    return os.path.join(TARGET, "debug", "vext"), shim

def quote(s):
    out = ['"']
    for c in s:
        out.append({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c))
    return "".join(out) + '"'

FIELDS = "schema {@ @object{name @optional(@string), n @optional(@int), ünï @optional(@any), deep @optional(@any), list @optional(@seq(@string))}}\n"

def schema_text(id, launch=None):
    lsp = "" if launch is None else ", lsp {launch (" + " ".join(map(quote, launch)) + ")}"
    return f"meta {{id {quote(id)}, version 1{lsp}}}\n{FIELDS}"

class Place:
    """A home with a configuration directory, programs and schemas."""
    def __init__(self, root):
        self.root = root
        self.home = os.path.join(root, "home")
        self.bin = os.path.join(self.home, "bin")
        self.conf = os.path.join(self.home, "config", "styx", "config.styx")
        self.docs = os.path.join(root, "docs")
        for d in (self.bin, os.path.dirname(self.conf), self.docs):
            os.makedirs(d, exist_ok=True)
        self.n = 0
    def write(self, name, text, d=None):
        p = os.path.join(d or self.docs, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="") as f:
            f.write(text)
        return p
    def config(self):
        try:
            with open(self.conf, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

def allowed_in(lib, raw):
    """The entries of a configuration, as the reference reader sees them; None: not a configuration."""
    if raw is None:
        return []
    try:
        t = raw.decode()
    except UnicodeDecodeError:
        return None
    d = lib(t)
    if not d.get("ok"):
        return None
    for k, v in (e[:2] for e in d["tree"]):
        if k.get("s") == "allowed_extensions":
            if "q" not in v or v.get("g") or any("s" not in x or x.get("g") for x in v["q"]):
                return None
            return [x["s"] for x in v["q"]]
    return []

# -- C34: what runs

WORDS = ["tool", "tool2", "tool-x", "too", "x", "my tool", "outil-é", 'q"t', "a{b}", "tool.sh", "Tool", "sh-like", "back\\slash", "(p)", "@t", ">", "..c", "😀", "a,b", "tool\ttab"]

class Programs:
    """Scripts that write how they were called to a log."""
    def __init__(self, P, r, names):
        self.log = os.path.join(P.root, "runs.log")
        open(self.log, "w").close()
        self.seen = 0
        self.dirs = [P.bin, os.path.join(P.root, "docs", "tools"), os.path.join(P.root, "docs")]
        body = '#!/bin/sh\n{ printf "%%s|%%s" %s "$0"; for a in "$@"; do printf "|%%s" "$a"; done; printf "\\n"; } >> "%s"\n'
        for d in self.dirs:
            os.makedirs(d, exist_ok=True)
            for n in names:
                p = os.path.join(d, n)
                with open(p, "w") as f:
                    f.write(body % ("'" + os.path.basename(d) + "'", self.log))
                os.chmod(p, 0o755)
    def runs(self):
        with open(self.log, errors="replace") as f:
            return [l.rstrip("\n").split("|") for l in f]

def spellings(P, r, n):
    """Commands that lead to the program n, or nearly so."""
    return [n, os.path.join(P.bin, n), os.path.join(P.docs, "tools", n), "./" + n, "tools/" + n, "./tools/" + n, P.bin + "//" + n, P.bin + "/./" + n, os.path.join(P.bin, "..", "bin", n)]

def near(r, c):
    return r.choice([c[:-1], c[1:], c + "2", c.upper(), c + " ", " " + c, c + "/", c + " -v", os.path.basename(c), os.path.dirname(c) or "/", "", "*", ".", "/", c.replace("t", "*", 1), c + "\0"[:0], c + "\n", c[: max(1, len(c) // 2)], "./" + c])

def write_config(r, P, entries):
    """As a user or a tool writes it."""
    k = r.random()
    q = [quote(e) if r.random() < 0.6 or not re.fullmatch(r"[A-Za-z][\w./-]*", e) or "//" in e else e for e in entries]
    if k < 0.3:
        t = "allowed_extensions (" + " ".join(q) + ")\n"
    elif k < 0.6:
        t = "// mine\nallowed_extensions (\n" + "".join(f"  {e}\n" for e in q) + ")\n"
    elif k < 0.8:
        t = "meta { @schema crate:styx-lsp-config@1 }\n\nallowed_extensions (" + " ".join(q) + ")"
    else:
        t = '"allowed_extensions" (' + "\n".join(q) + ")\n"
    with open(P.conf, "w") as f:
        f.write(t)

def blocked(diags):
    return [d for d in diags if d.get("source") == "styx-extension"]

def scenario(ctx, r, exe, lib, root, i):
    """A user's session, or several: which programs run?"""
    P = Place(root)
    names = r.sample(WORDS, r.choice([2, 3, 4]))
    G = Programs(P, r, names)
    story = []
    def fail(sig, msg):
        ctx.fail("allow:" + sig, msg, text="\n".join(map(str, story)), number=i)
    # commands, and what is allowed of them
    commands = []
    for n in names:
        commands += r.sample(spellings(P, r, n), r.choice([1, 1, 2, 3]))
    entries = [c for c in commands if r.random() < 0.35]
    entries += [e for c in commands if r.random() < 0.4 for e in [near(r, c)] if e not in commands]
    r.shuffle(entries)
    if entries or r.random() < 0.5:
        write_config(r, P, entries)
        story.append(f"configuration: {P.config().decode()}")
    if P.config() is not None and allowed_in(lib, P.config()) != entries:
        raise Undecided(f"the configuration we wrote is not read as meant: {P.config()!r}")
    linked = P.config() is not None and r.random() < 0.25
    if linked:
        real = os.path.join(P.root, "dotfiles")
        os.makedirs(real)
        shutil.move(P.conf, os.path.join(real, "styx.conf"))
        os.symlink(r.choice([os.path.join(real, "styx.conf"), "../../../dotfiles/styx.conf"]), P.conf)
        story.append("the configuration is a link")
    schemas = []
    for k, c in enumerate(commands):
        args = r.choice([[], ["lsp"], ["--x", "a b"], ["é", ""]])
        name = f"s{k}.schema.styx"
        P.write(name, schema_text(f"v:{i}-{k}", [c] + args))
        schemas.append((name, c, args))
    if r.random() < 0.3:
        P.write("none.schema.styx", schema_text(f"v:{i}-none", []))
        schemas.append(("none.schema.styx", None, []))
    expected = {}                       # (argv0, args) -> at least, at most how often
    allowed, done = set(entries), set()
    def expect(k):
        name, c, args = schemas[k]
        if c in allowed and k not in done:
            done.add(k)
            key = (c, tuple(args))
            a, b = expected.get(key, (0, 0))
            expected[key] = a + 1, b + 1
    def runs_are(what):
        """Exactly what is expected has run."""
        got = {}
        for l in G.runs():
            key = tuple(l[2:])
            got[(l[1], key)] = got.get((l[1], key), 0) + 1
        want = {}
        for (c, args), (n, m) in expected.items():
            # a name without a slash is found on the PATH
            c0 = os.path.join(P.bin, c) if "/" not in c else c
            a, b = want.get((c0, args), (0, 0))
            want[(c0, args)] = a + n, b + m
        ctx.count("run counts compared")
        bad = 0
        for k in set(got) | set(want):
            g, (w, m) = got.get(k, 0), want.get(k, (0, 0))
            if g > m:
                bad += fail("more" if m else "ran", f"{what}: {k} ran {g} times, {m} expected; allowed are {sorted(allowed)}") or 1
            elif g < w:
                bad += fail("not", f"{what}: {k} ran {g} times, {w} expected; allowed are {sorted(allowed)}") or 1
        return not bad
    sessions = r.choice([1, 2, 2, 3])
    for session in range(sessions):
        done.clear()
        S = Server(exe, P.home, P.docs)
        story.append("session")
        docs = []
        for k in r.sample(range(len(schemas)), len(schemas)):
            for n in range(r.choice([1, 1, 2, 3])):
                docs.append((k, uri_of(os.path.join(P.docs, f"d{k}-{n}.styx"))))
        text = lambda k, x="": f"@schema {schemas[k][0]}\nname {x or 'a'}\n"
        burst = r.random() < 0.5
        for k, u in docs:
            story.append(f"open {u} {schemas[k]}")
            S.open(u, text(k))
            if not burst:
                S.published(u, 1)
        def see(version):
            for k, u in docs:
                b = blocked(S.published(u, version))
                c = schemas[k][1]
                if c is None or c in allowed:
                    if b:
                        fail("asks", f"{c!r} is allowed and yet reported: {b[0]['message']}")
                elif len(b) != 1 or b[0].get("data", {}).get("command") != c or b[0].get("severity") != 3:
                    fail("silent", f"{c!r} is not allowed; the editor is told {short(b)}")
                else:
                    ctx.count("blocked commands reported")
                    t = Text(text(k, "" if version == 1 else f"w{version}"))
                    if "@schema" not in (t.range(b[0]["range"]) or "") and schemas[k][0] not in (t.range(b[0]["range"]) or ""):
                        fail("where", f"the report is at {short(b[0]['range'])}, not at the declaration")
                ctx.eval(f"{i} {session} {version} {u}")
        see(1)
        for k, u in docs:
            expect(k)
        if not runs_are("after opening"):
            S.kill()
            return
        # ask it to go on: changes, hovers
        for k, u in docs[:4]:
            S.ask("textDocument/hover", {"textDocument": {"uri": u}, "position": {"line": 1, "character": 1}})
            S.ask("textDocument/completion", {"textDocument": {"uri": u}, "position": {"line": 1, "character": 1}})
        version = 1
        for _ in range(r.choice([0, 1, 2])):
            rest = [k for k in range(len(schemas)) if schemas[k][1] not in allowed and schemas[k][1] is not None]
            if not rest:
                break
            k, u = r.choice([d for d in docs if d[0] in rest])
            c = schemas[k][1]
            ds = S.published(u, version)
            acts = S.ask("textDocument/codeAction", {"textDocument": {"uri": u}, "range": blocked(ds)[0]["range"], "context": {"diagnostics": ds}}) or []
            cmds = [a["command"] for a in acts if a.get("command", {}).get("command") == "styx.allowExtension"] if acts else []
            if len(cmds) != 1 or cmds[0]["arguments"] != [{"command": c}]:
                fail("offer", f"for {c!r} the editor is offered {short(cmds or acts)}")
                break
            ctx.count("offers")
            # meanwhile the configuration may change
            added = None
            if P.config() is not None and not linked and r.random() < 0.3:
                old = allowed_in(lib, P.config())
                if old is not None:
                    added = f"other-{session}-{version}"
                    write_config(r, P, old + [added])
                    story.append(f"the configuration has {added} added")
            before = P.config()
            story.append(f"allow {c!r}")
            # a change first, so that the republished diagnostics can be told from the old
            version += 1
            for k2, u2 in docs:
                S.note("textDocument/didChange", {"textDocument": {"uri": u2, "version": version}, "contentChanges": [{"text": text(k2, f"w{version}")}]})
                S.published(u2, version)
            runs_are("after a change")
            n0 = {u2: len(S.diags[u2]) for _, u2 in docs}
            S.ask("workspace/executeCommand", {"command": "styx.allowExtension", "arguments": cmds[0]["arguments"]})
            allowed.add(c)
            ctx.count("commands allowed")
            for k2, u2 in docs:
                S.until(lambda: len(S.diags[u2]) > n0[u2], 20)
            see(version)
            # what failed before may be tried again
            for k2 in done:
                key = (schemas[k2][1], tuple(schemas[k2][2]))
                expected[key] = expected[key][0], expected[key][1] + 1
            for k2, _ in docs:
                expect(k2)
            if not runs_are(f"after allowing {c!r}"):
                break
            # it is kept
            have = allowed_in(lib, P.config())
            was = allowed_in(lib, before)
            ctx.count("configurations read back")
            if have is None:
                fail("config-broken", f"the configuration written is {P.config()!r}")
            elif was is not None:
                if sorted(have) != sorted(was + ([c] if c not in was else [])):
                    fail("config-entries", f"{c!r} was allowed where {was} were; the configuration has {have}")
            if linked and not os.path.islink(P.conf):
                fail("config-link", "the configuration was a link and is a file now")
        e = S.end()
        if e:
            fail("end", e)
        # what the next session starts with
        now = allowed_in(lib, P.config())
        if now is not None:
            allowed = set(now)
    ctx.count("sessions", sessions)

BAD_CONFIGS = [b"allowed_extensions (tool", b"allowed_extensions {a b}\n", b"allowed_extensions tool\n", b"allowed_extensions (tool) (x)\n", b"\xff\xfe\n", b"allowed_extensions (tool)\nallowed_extensions ()\n", b"}\n",
               b"allowed_extensions ({a b})\n", b"meta {", b"allowed_extensions (tool \xff)\n", b'allowed_extensions ("tool\n', b"allowed_extensions @seq(tool\n"]

def unreadable(ctx, r, exe, lib, root, raw, i):
    """A configuration that is not one: nothing of it runs, and it is left as it is."""
    P = Place(root)
    G = Programs(P, r, ["tool", "other"])
    with open(P.conf, "wb") as f:
        f.write(raw)
    for n in ("tool", "other"):
        P.write(f"{n}.schema.styx", schema_text(f"v:{n}", [n]))
    S = Server(exe, P.home, P.docs)
    for n in ("tool", "other"):
        u = uri_of(os.path.join(P.docs, n + ".styx"))
        S.open(u, f"@schema {n}.schema.styx\n")
        S.published(u, 1)
    ran = {os.path.basename(l[1]) for l in G.runs()}
    if ran:
        ctx.fail("allow:unreadable-ran", f"the configuration is {raw!r}, and {ran} ran", text=repr(raw))
    S.ask("workspace/executeCommand", {"command": "styx.allowExtension", "arguments": [{"command": "other"}]})
    u = uri_of(os.path.join(P.docs, "other.styx"))
    t = time.time() + 10
    while time.time() < t and "other" not in {os.path.basename(l[1]) for l in G.runs()}:
        time.sleep(0.02)
    ran = [os.path.basename(l[1]) for l in G.runs()]
    if ran != ["other"]:
        ctx.fail("allow:unreadable-allow", f"`other` was allowed in the session; {ran} ran", text=repr(raw))
    if P.config() != raw:
        ctx.fail("allow:unreadable-lost", f"the configuration was {raw!r} and is {P.config()!r}", text=repr(raw))
    ctx.count("unreadable configurations")
    ctx.eval(f"bad {raw!r}")
    e = S.end()
    if e:
        ctx.fail("allow:end", e)

def crash(ctx, r, exe, lib, root, shim, at, mode):
    """The server dies, or the disk is full, while it saves."""
    P = Place(root)
    old = r.sample(["a", "my tool", "b{", "é"], r.choice([0, 1, 2, 3]))
    if old or r.random() < 0.5:
        write_config(r, P, old)
    before = P.config()
    cnt = os.path.join(root, "count")
    died = False
    try:
        S = Server(exe, P.home, P.docs, LD_PRELOAD=shim, FAULT_AT=str(at), FAULT_MODE=mode, FAULT_COUNT=cnt, FAULT_FILES="1")
    except Gone:
        return False
    new = "new tool"
    try:
        S.ask("workspace/executeCommand", {"command": "styx.allowExtension", "arguments": [{"command": new}]})
        S.call("shutdown", None)
        S.note("exit", None)
        S.p.stdin.close()
    except Gone:
        died = True
    try:
        S.p.wait(20)
    except subprocess.TimeoutExpired:
        ctx.fail("allow:crash-hangs", f"call {at} {mode}: the server does not end", text=f"{at} {mode}")
    S.kill()
    ctx.count(f"saves with {mode}")
    ctx.eval(f"{at} {mode} {before!r}")
    now = P.config()
    if died:
        ctx.count("servers that died")
    if now == before:
        ctx.count("configuration as before")
        return True
    have = allowed_in(lib, now)
    if have is None or sorted(have) != sorted(old + [new]):
        ctx.fail("allow:crash", f"{mode} at call {at}: the configuration allowed {old}, `{new}` was being added, and now it is {now!r}", text=f"{at} {mode} {before!r}")
    else:
        ctx.count("configuration with the addition")
    return True

def together(ctx, r, exe, lib, root, k):
    """Several servers allow commands at the same time."""
    P = Place(root)
    old = r.sample(["a", "my tool", "b{", "é"], 2)
    write_config(r, P, old)
    Ss = [Server(exe, P.home, P.docs) for _ in range(k)]
    ms = []
    for n, S in enumerate(Ss):
        ms.append([S.message("workspace/executeCommand", {"command": "styx.allowExtension", "arguments": [{"command": f"new {n} {x}"}]}) for x in range(3)])
    ts = [threading.Thread(target=S.send, args=m) for S, m in zip(Ss, ms)]
    [t.start() for t in ts]
    stop, torn = threading.Event(), []
    def watch():
        while not stop.is_set():
            raw = P.config()
            if raw is None or not raw.endswith((b")\n", b")")) :
                torn.append(raw)
            ctx.count("configuration looked at")
            time.sleep(0.0005)
    w = threading.Thread(target=watch)
    w.start()
    for S, m in zip(Ss, ms):
        for x in m:
            S.wait(x["id"])
    stop.set()
    w.join()
    [S.end() for S in Ss]
    have = allowed_in(lib, P.config())
    want = sorted(old + [f"new {n} {x}" for n in range(k) for x in range(3)])
    if have is None or sorted(have) != want:
        ctx.fail("allow:together", f"{k} servers added to {old}; the configuration has {have}", text=str(P.config()))
    if torn:
        ctx.fail("allow:torn", f"while servers wrote it, the configuration was {torn[0]!r}", text=str(torn[0]))
    ctx.count("servers at the same time", k)
    ctx.eval(f"together {root}")

def allowing(ctx, exe, root):
    vext, shim = build()
    lib = Library()
    k = 12 if ctx.thorough else 1
    jobs = [("scenario", i) for i in range(200 * k)] + [("bad", i) for i in range(len(BAD_CONFIGS))] + [("together", i) for i in range(6 * k)]
    modes = ["kill", "partkill", "enospc"]
    jobs += [("crash", at, m, n) for m in modes for at in range(10) for n in range(12 if ctx.thorough else 3)]
    r0 = random.Random(ctx.seed)
    r0.shuffle(jobs)
    ctx.rule = "one document's report, configuration or interrupted save; distinct by scenario and document"
    ctx.must += ["sessions", "commands allowed", "blocked commands reported", "offers", "run counts compared", "configurations read back", "unreadable configurations", "servers at the same time", "configuration looked at",
                 "saves with kill", "saves with enospc", "saves with partkill", "servers that died", "configuration as before", "configuration with the addition"]
    stop = time.time() + (560 if ctx.thorough else 75)
    def work(nj):
        n, j = nj
        if time.time() > stop:
            ctx.extra["cut_by_time"] = True
            return
        r = random.Random(f"{ctx.seed}/{j}")
        d = os.path.join(root, f"j{n}")
        os.makedirs(d)
        try:
            if j[0] == "scenario":
                scenario(ctx, r, exe, lib, d, j[1])
            elif j[0] == "bad":
                unreadable(ctx, r, exe, lib, d, BAD_CONFIGS[j[1]], j[1])
            elif j[0] == "together":
                together(ctx, r, exe, lib, d, r.choice([2, 3, 5]))
            else:
                crash(ctx, r, exe, lib, d, shim, j[1], j[2])
        except Gone as e:
            ctx.fail("server:" + re.sub(r"\d+", "N", str(e))[:80], f"{j}: {e}", text=str(j))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(7) as ex:
        for f in [ex.submit(work, nj) for nj in enumerate(jobs)]:
            f.result()
    lib.end()
    ctx.assumptions = ["the scripts' own log of their runs", "the reference reader's view of the configuration (C01)"]

# -- C35: what is said

VALUES = ["zap", "a", "1", "x-zap-y", '"é zap 😀"', "zap😀zap", '"two words"', "r#\"raw zap\"#", "@", "@tag", "@some(zap)", "(a zap b)", "{k v, zap w}", "{deep {er zap}}", '{a {bé zap, c {d "é zap"}}}', "{é 1, o {p longword}}", "{a {bé zap, c {d \"é zap\"}}}", "{é 1, o {p longword}}", "<<E\n  zap é\n  E", "(\n  {zap zap}\n  (q zap)\n)", '"\U0010ffff zap"']

def a_text(r, schema):
    ks = ["name", "n", "ünï", "deep", "list"]
    if r.random() < 0.5:
        ks += r.sample(["nme", "zap", "other", "é😀", "extra"], r.choice([1, 2]))
    r.shuffle(ks)
    nl = r.choice(["\n", "\n", "\n", "\r\n"])
    out = [f"@schema {schema}"] if r.random() < 0.95 else []
    for k in ks[: r.randrange(len(ks) + 1)]:
        v = r.choice(["1", "zap", "7"]) if k == "n" else r.choice(["(zap b)", "()", "(é😀zap c)"]) if k == "list" else r.choice(VALUES)
        if r.random() < 0.2:
            out.append(r.choice(["// a zap 😀", "/// é doc zap"]) if r.random() < 0.5 else "")
        out.append(("\t" if r.random() < 0.1 else "") + f"{k} {v}")
    if r.random() < 0.12:
        out.append(r.choice(["{", "name b", "x }", '"open']))
    return nl.join(out) + r.choice(["", nl])

def log_of(path):
    out = []
    try:
        with open(path) as f:
            for l in f:
                try:
                    out.append(json.loads(l))
                except ValueError:
                    pass
    except FileNotFoundError:
        pass
    return out

def alive(pid, exe):
    try:
        if os.readlink(f"/proc/{pid}/exe") != exe:
            return False
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False

def gone(ctx, logs, vext):
    """No extension outlives the server's orderly end."""
    ps = [l["start"] for p in logs for l in log_of(p) if "start" in l]
    t = time.time() + 8
    while time.time() < t and any(alive(p, vext) for p in ps):
        time.sleep(0.02)
    left = [p for p in ps if alive(p, vext)]
    for p in left:
        os.kill(p, signal.SIGKILL)
    ctx.count("extension processes", len(ps))
    return left

def base(ds):
    return sorted(((d["range"]["start"]["line"], d["range"]["start"]["character"], d["range"]["end"]["line"], d["range"]["end"]["character"], d.get("severity"), d.get("source"), d["message"]) for d in ds if d.get("source") not in ("vext", "styx-extension")))

def zaps(t):
    return [m.start() for m in re.finditer(b"zap", t.encode())]

def inner(ents, o, path):
    """The path of keys to the scalar that has offset o strictly inside it, through objects only; None: not there."""
    for e in ents:
        k, v = e[0], e[1]
        if "s" not in k or "g" in k:
            continue
        a, z = v["sp"]
        if a < o < z and not v.get("g"):
            if "o" in v:
                return inner(v["o"], o, path + [k["s"]])
            if "s" in v and v["k"] != "heredoc":
                return path + [k["s"]], v, [x[0].get("s") for x in ents]
    return None

class Talk:
    """A server with an extension in some mode, and one without."""
    def __init__(self, ctx, exe, vext, lib, root, n, mode):
        self.ctx, self.lib, self.mode = ctx, lib, mode
        self.P = Place(os.path.join(root, f"t{n}"))
        self.log = os.path.join(self.P.root, "ext.log")
        with open(self.P.conf, "w") as f:
            f.write(f"allowed_extensions ({quote(vext)})\n")
        self.a, self.b = os.path.join(self.P.docs, "a"), os.path.join(self.P.docs, "b")
        self.id = f"v:{n}-{mode}"
        self.schema = schema_text(self.id, [vext, mode, self.log])
        self.P.write("s.styx", self.schema, self.a)
        self.P.write("s.styx", schema_text(self.id + "-plain"), self.b)
        self.S = Server(exe, self.P.home, self.P.docs)
        self.n = 0
    def fail(self, sig, msg, text=""):
        self.ctx.fail(f"ext:{self.mode}:{sig}" if self.mode != "good" else f"ext:{sig}", f"{self.mode}: {msg}", text=text)
    def uris(self):
        self.n += 1
        return uri_of(os.path.join(self.a, f"d {self.n}.styx")), uri_of(os.path.join(self.b, f"d {self.n}.styx"))

KINDS = ["completion", "hover", "definition", "codeAction", "inlayHint"]

def request(r, S, T, uri, kind, ds):
    i = min(r.randrange(len(T.t) + 1), len(T.t))
    if r.random() < 0.5:
        ws = [m.start() + r.randrange(len(m[0]) + 1) for m in re.finditer(r"\S+", T.t)]
        i = r.choice(ws) if ws else i
    p = {"textDocument": {"uri": uri}}
    a = b = None
    if kind in ("completion", "hover", "definition"):
        a = T.pos(i)
        p["position"] = a
    elif kind == "codeAction":
        j = r.randrange(i, len(T.t) + 1)
        p["range"] = {"start": T.pos(i), "end": T.pos(j)}
        p["context"] = {"diagnostics": ds}
    else:
        p["range"] = {"start": T.pos(0), "end": T.pos(len(T.t))}
    return S.message("textDocument/" + kind, p)

def strict(T, pos):
    """Byte offset of a position."""
    return len(T.t[:T.index(pos)].encode())

def fidelity(ctx, r, K, steps):
    """One document in the good mode: everything the extension is told, and what becomes of its answers."""
    S, lib = K.S, K.lib
    u, w = K.uris()
    version = 0
    for step in range(steps):
        t = a_text(r, "s.styx")
        T, d = Text(t), lib(t)
        version += 1
        for x in (u, w):
            if version == 1:
                S.open(x, t)
            else:
                S.note("textDocument/didChange", {"textDocument": {"uri": x, "version": version}, "contentChanges": [{"text": t}]})
        ds, plain = S.published(u, version), S.published(w, version)
        ctx.count("documents")
        ctx.eval(t)
        if base(ds) != base(plain):
            K.fail("base", f"with the extension the editor is shown {base(ds)}, without it {base(plain)}", t)
        declared = d.get("ok") and any((e[0].get("g") or [None])[0] == "schema" for e in d["tree"])
        mine = [x for x in ds if x.get("source") == "vext"]
        want = [(T.brange(z, z + 3), [1, 2, 3, 4][z % 4], f"zap at {z}", f"E{z}") for z in zaps(t)] if declared else []
        if [(x["range"], x.get("severity"), x["message"], x.get("code")) for x in mine] != want:
            if not (mine == [] and not d.get("ok")):
                K.fail("diagnostics", f"the extension reports {short(want)}, the editor is shown {short([(x['range'], x.get('severity'), x['message'], x.get('code')) for x in mine])}", t)
        ctx.count("extension diagnostics", len(mine))
        log = log_of(K.log)
        if declared:
            last = [l for l in log if l.get("call") == "diagnostics" and l["uri"] == u]
            if not last or last[-1]["content"] != t or last[-1]["src"] != t or not last[-1]["doc"] or last[-1]["schema"] != K.schema:
                K.fail("told", f"the extension was last told {short(last[-1:])}", t)
        n0 = len(log)
        for kind in r.sample(KINDS * 2, 7):
            n0 = len(log_of(K.log))
            m = request(r, S, T, u, kind, ds)
            S.send(m)
            a = S.wait(m["id"])
            ctx.count(kind)
            ctx.eval(f"{kind} {t} {short(m['params'])}")
            if "error" in a:
                K.fail("error", f"{kind}: {a['error']}", t)
                continue
            a = a["result"]
            new = [l for l in log_of(K.log)[n0:] if l.get("uri") == u]
            name = {"completion": "completions", "codeAction": "code_actions", "inlayHint": "inlay_hints"}.get(kind, kind)
            calls = [l for l in new if l.get("call") == name]
            if not declared:
                if calls:
                    K.fail("asked", f"{kind}: the extension was asked about a document that has no schema or no tree", t)
                continue
            if kind in ("completion", "codeAction", "inlayHint") and len(calls) != 1:
                K.fail("calls", f"{kind}: the extension was asked {len(calls)} times", t)
                continue
            for l in new:
                if "pos" in l:
                    ctx.count("places converted by the host")
                    o, line, ch = l["pos"]
                    if {"line": line, "character": ch} != T.bpos(o) or (l["back"] != o and t.encode()[o - 1:o + 1] != b"\r\n"):
                        K.fail("host-place", f"the host says offset {o} is {line}:{ch}, and back {l['back']}; it is {T.bpos(o)}", t)
                if "subtree" in l:
                    ctx.count("subtrees")
                    got = inner(d["tree"], (l["span"] or [0])[0] + 1, [])
                    if got and got[0] == l["subtree"] and l["text"] is not None and got[1]["s"] != l["text"]:
                        K.fail("subtree", f"at {l['subtree']} the host has {l['text']!r}, the document {got[1]['s']!r}", t)
            if not calls:
                continue
            c = calls[0]
            ctx.count(f"{kind} asked")
            if c.get("src") != t or c.get("schema") != K.schema:
                K.fail("host-source", f"{kind}: the host's source is {short(c.get('src'))}", t)
            if "position" in m["params"]:
                o = strict(T, m["params"]["position"])
                if c["offset"] != o or ("line" in c and {"line": c["line"], "character": c["char"]} != m["params"]["position"]):
                    K.fail("cursor", f"{kind} at {short(m['params']['position'])}, byte {o}: the extension is told byte {c['offset']}", t)
                    continue
                at = inner(d["tree"], o, [])
                if at and kind == "hover":
                    ctx.count("paths")
                    if c["path"] != at[0]:
                        K.fail("path", f"hover in the value of {at[0]}: the extension is told {c['path']}", t)
                    if len(at[0]) > 1 and c.get("keys") != at[2]:
                        K.fail("context", f"hover in the value of {at[0]}: the object around it has the keys {at[2]}, the extension is told {c.get('keys')}", t)
                    sub = [l for l in new if "subtree" in l]
                    if sub and sub[0]["text"] != at[1]["s"]:
                        K.fail("subtree", f"at {at[0]} the host has {sub[0]['text']!r}, the document {at[1]['s']!r}", t)
            if kind == "completion":
                it = [x for x in a if x["label"].startswith("ext-")]
                if len(it) != 1 or it[0]["label"] != f"ext-{c['offset']}":
                    K.fail("completion", f"the extension's item is not there once: {short(it)}", t)
                else:
                    e = it[0]["textEdit"]
                    got = T.range(e["range"])
                    if got is None or e["range"]["end"] != m["params"]["position"] or got != c["prefix"] or e["newText"] != "é😀zap":
                        K.fail("completion-edit", f"at {short(m['params']['position'])} with the prefix {c['prefix']!r} the item replaces {got!r} at {short(e['range'])} by {e['newText']!r}", t)
            elif kind == "hover":
                if a is None or a["contents"].get("value") != f"ext {c['offset']} {'/'.join(c['path'])}" or a.get("range") != {"start": T.bpos(c["offset"]), "end": T.bpos(c["offset"])}:
                    K.fail("hover", f"the extension's answer is shown as {short(a)}", t)
            elif kind == "definition":
                got = [] if a is None else a if isinstance(a, list) else [a]
                if [(x["uri"], x["range"]) for x in got] != [(u, T.brange(z, z + 3)) for z in zaps(t)]:
                    K.fail("definition", f"the extension's places are {zaps(t)}, the editor is given {short(got)}", t)
            elif kind == "inlayHint":
                got = [(x["position"], x["label"]) for x in a or () if str(x["label"]).startswith("ext@")]
                if got != [(T.bpos(z), f"ext@{z}") for z in zaps(t)[:5]]:
                    K.fail("inlay", f"the extension's hints are at {zaps(t)[:5]}, the editor is given {short(got)}", t)
            elif kind == "codeAction":
                x, y = T.span(m["params"]["range"])
                if c["span"] != [x, y]:
                    K.fail("span", f"{short(m['params']['range'])} is {x}..{y}; the extension is told {c['span']}", t)
                    continue
                if sorted(c["diags"]) != sorted([*T.span(q["range"]), q["message"]] for q in ds if T.span(q["range"])) and all(T.span(q["range"]) for q in ds):
                    K.fail("action-diagnostics", f"the extension is told {short(c['diags'])} of {short([(q['range'], q['message']) for q in ds])}", t)
                it = [q for q in a or () if q["title"] == f"ext {x}..{y}"]
                es = it[0]["edit"]["changes"].get(u) if len(it) == 1 else None
                res = T.apply(es)[0] if es else None
                b = t.encode()
                if res is None or res.encode() != b[:x] + "Z😀".encode() + b[y:]:
                    K.fail("action", f"the extension's action on {x}..{y} is {short(it)}", t)
    S.close_doc(u)
    S.close_doc(w)

def hostile(ctx, r, exe, vext, lib, root, n, mode, shared=False):
    """Whatever the extension does, the editor is answered."""
    K = Talk(ctx, exe, vext, lib, root, n, mode)
    S = K.S
    docs = []
    for _ in range(3):
        u, w = K.uris()
        t = a_text(r, "s.styx")
        docs.append([u, w, t, 1])
        S.open(u, t)
        S.open(w, t)
    asked = []
    for step in range(8 if mode in ("slow", "bad-spans", "good") else 3):
        for q in docs:
            if r.random() < 0.6:
                q[2] = a_text(r, "s.styx")
                q[3] += 1
                for x in q[:2]:
                    S.note("textDocument/didChange", {"textDocument": {"uri": x, "version": q[3]}, "contentChanges": [{"text": q[2]}]})
            T = Text(q[2])
            ms = [request(r, S, T, q[0], k, []) for k in r.sample(KINDS, 2)]
            if r.random() < 0.3:
                ms.append(S.message("textDocument/documentSymbol", {"textDocument": {"uri": q[0]}}))
            S.send(*ms)
            asked += [(m, T) for m in ms]
            if r.random() < 0.1:
                S.note("$/cancelRequest", {"id": ms[0]["id"]})
    for m, T in asked:
        a = S.wait(m["id"], 120)
        ctx.count("requests answered")
        ctx.eval(f"{mode} {n} {m['id']}")
        if "error" in a and a["error"].get("code") != -32800:
            K.fail("error", f"{m['method']}: {a['error']}", T.t)
    for u, w, t, v in docs:
        ds, plain = S.published(u, v, 60), S.published(w, v, 60)
        ctx.count("texts that got diagnostics")
        if base(ds) != base(plain):
            K.fail("base", f"with the extension the editor is shown {base(ds)}, without it {base(plain)}", t)
        T = Text(t)
        for x in ds:
            if T.index(x["range"]["start"]) is None or T.index(x["range"]["end"]) is None:
                K.fail("range", f"{short(x['range'])} is not in the document", t)
    for k, v in S.answers.items():
        if len(v) != 1:
            K.fail("twice", f"request {k} was answered {len(v)} times")
    starts = [l for l in log_of(K.log) if "start" in l]
    if len(starts) != 1:
        K.fail("starts", f"the extension was started {len(starts)} times")
    inits = [l for l in log_of(K.log) if l.get("call") == "initialize"]
    if mode in ("good", "slow", "bad-spans", "hang-call") and (len(inits) != 1 or inits[0]["schema"] != K.id):
        K.fail("initialize", f"the extension was initialized {len(inits)} times: {short(inits)}")
    if mode in ("good", "slow"):
        # the last the extension hears of a document is its last text
        for u, w, t, v in docs:
            d = lib(t)
            if d.get("ok") and any((e[0].get("g") or [None])[0] == "schema" for e in d["tree"]):
                last = [l for l in log_of(K.log) if l.get("call") == "diagnostics" and l["uri"] == u]
                ctx.count("last texts")
                if not any(l["content"] == t for l in last):
                    K.fail("last", f"the extension never heard of the last text; {len(last)} times of others", t)
    ctx.count(f"{mode} extensions")
    end(ctx, K, vext)

def end(ctx, K, vext):
    t0 = time.time()
    e = K.S.end()
    if e:
        K.fail("end", e)
    left = gone(ctx, [K.log], vext)
    if left:
        K.fail("left", f"{len(left)} extension processes outlive the server's orderly end")

MODES = ["good", "slow", "exit", "exit-call", "panic-call", "hang-start", "hang-init", "hang-call", "garbage", "closed", "bad-spans"]

def talking(ctx, exe, root):
    vext, _ = build()
    vext = os.path.realpath(vext)
    exe = os.path.join(os.path.dirname(vext), "vlsp")
    lib = Library()
    k = 8 if ctx.thorough else 1
    ctx.rule = "one request's answer or one text's diagnostics; distinct by text and request"
    ctx.must += ["documents", "extension diagnostics", "places converted by the host", "subtrees", "paths", "requests answered", "texts that got diagnostics", "last texts", "extension processes"]
    ctx.must += [f"{x} asked" for x in KINDS] + [f"{m} extensions" for m in MODES]
    jobs = [("hostile", m, i) for i in range(k) for m in MODES] + [("hostile", m, i) for i in range(2 * k) for m in ("good", "slow", "bad-spans")]
    jobs.sort(key=lambda j: not j[1].startswith("hang"))
    jobs += [("good", "good", i) for i in range(14 * k)]
    stop = time.time() + (560 if ctx.thorough else 75)
    def work(nj):
        n, j = nj
        r = random.Random(f"{ctx.seed}/{j}")
        if time.time() > stop:
            ctx.extra["cut_by_time"] = True
            return
        K = None
        try:
            if j[0] == "hostile":
                hostile(ctx, r, exe, vext, lib, root, n, j[1])
            else:
                K = Talk(ctx, exe, vext, lib, root, n, "good")
                for _ in range(4):
                    fidelity(ctx, r, K, 3)
                end(ctx, K, vext)
        except Gone as e:
            ctx.fail(f"ext:{j[1]}:server", f"{j}: {e}", text=str(j))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(work, nj) for nj in enumerate(jobs)]:
            f.result()
    # whatever happened, nothing of ours stays behind
    for p in glob.glob(os.path.join(root, "t*", "ext.log")):
        for l in log_of(p):
            if "start" in l and alive(l["start"], vext):
                os.kill(l["start"], signal.SIGKILL)
    lib.end()
    ctx.assumptions = ["the extension's own log of what it is asked", "the same document under a schema without an extension shows what the server itself has to say", "the reference reader's places"]

def run(ctx):
    core.build(False)
    with Scratch("ext") as root:
        if ctx.prop == "C34":
            allowing(ctx, os.path.join(workspace(), "styx"), root)
        else:
            talking(ctx, None, root)
