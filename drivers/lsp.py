"""C24-C27: the language server over stdio, watched by a client of our own."""
import json, os, queue, random, re, subprocess, threading, time, urllib.parse
from concurrent.futures import ThreadPoolExecutor
from . import core
from .common import *

# -- the client's side of the protocol

class Gone(Exception):
    pass

class Server:
    """`styx lsp`, its messages recorded by a reader thread."""
    def __init__(self, exe, home, cwd, **more):
        self.err = open(os.path.join(home, f"lsp-{os.getpid()}-{id(self)}.err"), "w+b")
        e = {"PATH": os.path.join(home, "bin") + ":/usr/bin:/bin", "HOME": home, "XDG_CACHE_HOME": os.path.join(home, "cache"), "XDG_CONFIG_HOME": os.path.join(home, "config"),
             "LANG": "C.UTF-8", "RUST_LOG": "error", **more}
        self.p = subprocess.Popen([exe, "lsp"], cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, preexec_fn=limit(12))
        self.cond = threading.Condition()
        self.answers, self.diags, self.bad, self.dead = {}, {}, [], False
        self.n = 0
        self.wlock = threading.Lock()
        threading.Thread(target=self.read, daemon=True).start()
        self.caps = self.ask("initialize", {"processId": None, "rootUri": None, "capabilities": {}})["capabilities"]
        self.note("initialized", {})
    def read(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                while True:
                    l = f.readline()
                    if not l:
                        raise EOFError
                    l = l.strip()
                    if not l:
                        break
                    if l.lower().startswith(b"content-length:"):
                        n = int(l.split(b":")[1])
                m = json.loads(f.read(n))
                reply = None
                with self.cond:
                    if "method" in m and "id" in m:
                        reply = {"jsonrpc": "2.0", "id": m["id"], "result": None}
                    elif "id" in m:
                        self.answers.setdefault(m["id"], []).append(m)
                    elif m.get("method") == "textDocument/publishDiagnostics":
                        self.diags.setdefault(m["params"]["uri"], []).append(m["params"])
                    self.cond.notify_all()
                if reply:
                    self.send(reply)
        except Exception as e:
            with self.cond:
                self.dead = True
                if not isinstance(e, (EOFError, BrokenPipeError, ValueError)):
                    self.bad.append(repr(e))
                self.cond.notify_all()
    def send(self, *ms):
        """Several messages are written at once."""
        b = b"".join(b"Content-Length: %d\r\n\r\n" % len(x) + x for x in (json.dumps(m, ensure_ascii=False).encode("utf-8", "surrogatepass") for m in ms))
        try:
            with self.wlock:
                self.p.stdin.write(b)
                self.p.stdin.flush()
        except (BrokenPipeError, ValueError, OSError):
            self.died()
    def died(self):
        try:
            rc = self.p.wait(5)
        except subprocess.TimeoutExpired:
            rc = "still running"
        self.err.seek(0)
        t = self.err.read().decode("utf-8", "replace")
        m = re.search(r"panicked at [^\n]*\n[^\n]*", t)
        raise Gone(f"the server ended ({rc}): {m[0] if m else t[-300:]}")
    def message(self, method, params, request=True):
        m = {"jsonrpc": "2.0", "method": method, "params": params}
        if request:
            self.n += 1
            m["id"] = self.n
        return m
    def note(self, method, params):
        self.send(self.message(method, params, False))
    def until(self, f, timeout):
        t = time.time() + timeout
        with self.cond:
            while True:
                r = f()
                if r:
                    return r
                if self.dead:
                    break
                left = t - time.time()
                if left <= 0:
                    return None
                self.cond.wait(left)
        self.died()
    def wait(self, id, timeout=40):
        r = self.until(lambda: self.answers.get(id), timeout)
        if r is None:
            raise Gone(f"no answer to request {id} in {timeout} s")
        return r[0]
    def call(self, method, params):
        m = self.message(method, params)
        self.send(m)
        return self.wait(m["id"])
    def ask(self, method, params):
        r = self.call(method, params)
        if "error" in r:
            raise Gone(f"{method}: {r['error']}")
        return r["result"]
    def published(self, uri, version, timeout=20):
        """The diagnostics of a version."""
        r = self.until(lambda: next((d for d in reversed(self.diags.get(uri, [])) if d.get("version") == version), None), timeout)
        if r is None:
            raise Gone(f"no diagnostics for version {version} of {uri} in {timeout} s")
        return r["diagnostics"]
    def open(self, uri, text, version=1):
        self.note("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "styx", "version": version, "text": text}})
    def close_doc(self, uri):
        self.note("textDocument/didClose", {"textDocument": {"uri": uri}})
    def end(self):
        """Orderly; returns what is wrong with it."""
        try:
            if self.p.poll() is None:
                self.call("shutdown", None)
                self.note("exit", None)
                self.p.stdin.close()
                rc = self.p.wait(20)
            else:
                self.died()
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return "does not exit after shutdown and exit"
        except Gone as e:
            return str(e)
        finally:
            if self.p.poll() is None:
                self.p.kill()
                self.p.wait()
            self.err.close()
        return None if rc == 0 and not self.bad else f"exit {rc} {self.bad}"
    def kill(self):
        self.p.kill()
        self.p.wait()
        self.err.close()

class Text:
    """A document as a client counts it: lines end at \\n, \\r\\n or \\r; columns are UTF-16 units."""
    def __init__(self, t):
        self.t = t
        self.b = t.encode("utf-8", "surrogatepass")
        self.lines = []             # (start, end without the line end) in characters
        i = 0
        for m in re.finditer(r"\r\n|\n|\r", t):
            self.lines.append((i, m.start()))
            i = m.end()
        self.lines.append((i, len(t)))
    def index(self, pos):
        """Character index of a position; None if it is not in the document."""
        l, c = pos["line"], pos["character"]
        if not 0 <= l < len(self.lines):
            return None
        a, e = self.lines[l]
        u = 0
        for i in range(a, e + 1):
            if u == c:
                return i
            if i < e:
                u += 2 if ord(self.t[i]) > 0xffff else 1
        return None
    def pos(self, i):
        for l, (a, e) in enumerate(self.lines):
            if i <= e or l + 1 == len(self.lines) or i < self.lines[l + 1][0]:
                return {"line": l, "character": sum(2 if ord(c) > 0xffff else 1 for c in self.t[a:min(i, e)])}
    def bpos(self, o):
        return self.pos(len(self.b[:o].decode("utf-8", "replace")))
    def range(self, r):
        """The text of a range; None if the range is not in the document."""
        a, b = self.index(r["start"]), self.index(r["end"])
        return None if a is None or b is None or a > b else self.t[a:b]
    def span(self, r):
        """The range as byte offsets."""
        a, b = self.index(r["start"]), self.index(r["end"])
        return None if a is None or b is None or a > b else (len(self.t[:a].encode()), len(self.t[:b].encode()))
    def brange(self, a, b):
        return {"start": self.bpos(a), "end": self.bpos(b)}
    def apply(self, edits):
        """(new text, None) or (None, what is wrong)."""
        xs = []
        for k, e in enumerate(edits):
            a, b = self.index(e["range"]["start"]), self.index(e["range"]["end"])
            if a is None or b is None or a > b:
                return None, f"the edit's range {short(e['range'])} is not in the document ({len(self.lines)} lines)"
            xs.append((a, b, k, e["newText"]))
        xs.sort()
        for x, y in zip(xs, xs[1:]):
            if x[1] > y[0]:
                return None, f"edits overlap: {short(edits)}"
        out, i = [], 0
        for a, b, _, n in xs:
            out += [self.t[i:a], n]
            i = b
        return "".join(out) + self.t[i:], None

def short(x):
    return json.dumps(x, ensure_ascii=False)[:400]

class Library:
    """The library's view of texts (harness/core, `gen serve`)."""
    def __init__(self):
        self.p = subprocess.Popen([os.path.join(TARGET, "debug", "vlight"), "gen", "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env())
        self.lock = threading.Lock()
        self.seen = {}
    def __call__(self, t, indent=None):
        with self.lock:
            k = (t, indent)
            if k not in self.seen:
                q = {"t": t}
                if indent is not None:
                    q["indent"] = indent
                self.p.stdin.write(json.dumps(q).encode() + b"\n")
                self.p.stdin.flush()
                self.seen[k] = json.loads(self.p.stdout.readline())
            return self.seen[k]
    def end(self):
        self.p.stdin.close()
        self.p.wait()

# -- requests

OPTS = {"tabSize": 4, "insertSpaces": True}

def spot(r, T):
    """A position in the document."""
    t = T.t
    k = r.random()
    if k < 0.15:
        i = len(t)
    elif k < 0.5:
        ws = [m.start() for m in re.finditer(r"\S+", t)]
        i = r.choice(ws) + r.choice([0, 0, 1]) if ws else 0
    else:
        i = r.randrange(len(t) + 1)
    return T.pos(min(i, len(t)))

SIMPLE = ["documentSymbol", "semanticTokens/full", "documentLink", "formatting", "inlayHint"]
PLACED = ["hover", "definition", "completion", "references", "codeAction", "onTypeFormatting"]

def ask_of(r, kind, uri, T, diags=()):
    p = {"textDocument": {"uri": uri}}
    if kind == "formatting":
        p["options"] = {"tabSize": r.choice([1, 2, 4, 8]), "insertSpaces": r.random() < 0.8}
    elif kind == "inlayHint":
        p["range"] = {"start": {"line": 0, "character": 0}, "end": T.pos(len(T.t))}
    elif kind == "codeAction":
        s = spot(r, T)
        p["range"] = {"start": s, "end": s}
        p["context"] = {"diagnostics": list(diags)}
    elif kind in PLACED:
        p["position"] = spot(r, T)
        if kind == "references":
            p["context"] = {"includeDeclaration": True}
        if kind == "onTypeFormatting":
            p["ch"] = "\n"
            p["options"] = OPTS
    return "textDocument/" + kind, p

def uri_of(path):
    return "file://" + urllib.parse.quote(path)

# -- the material

def material(ctx, per):
    """Texts in several families; per: how many of each."""
    docs = []
    for what, n in per:
        for d in core.generate(ctx, what, n):
            d["family"] = what
            docs.append(d)
    return docs

class Site:
    """A scratch directory with schema files, one directory for each schema."""
    def __init__(self, root, schemas):
        self.root = root
        self.home = os.path.join(root, "home")
        os.makedirs(os.path.join(self.home, "bin"))
        self.sets = []
        for i, s in enumerate(schemas):
            ds = [d for d in s["docs"] if "decl" in d]
            if not ds:
                continue
            d0 = os.path.join(root, f"s{i}", "docs")
            os.makedirs(d0)
            for d in ds:
                p = os.path.normpath(os.path.join(d0, d["path"]))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w", newline="") as f:
                    f.write(s["schema"])
            self.sets.append((d0, s["schema"], ds))

def pieces(r, docs, k):
    return [r.choice(docs) for _ in range(k)]

# -- C25: positions

def ranges_in(j, at=""):
    """Every range in an answer, with where it was found."""
    if isinstance(j, dict):
        if isinstance(j.get("start"), dict) and isinstance(j.get("end"), dict) and "line" in j["start"]:
            yield at, j
            return
        if set(j) == {"line", "character"}:
            yield at, {"start": j, "end": j}
            return
        for k, v in j.items():
            if k != "data":
                yield from ranges_in(v, f"{at}.{k}")
    elif isinstance(j, list):
        for i, v in enumerate(j):
            yield from ranges_in(v, f"{at}[{i}]")

def key_text(k):
    return k.get("s")

def split_lines(T, a, b):
    """The byte span a..b as pieces of lines (line, start unit, length in units), without empty ones."""
    s, e = T.bpos(a), T.bpos(b)
    out = []
    for l in range(s["line"], e["line"] + 1):
        x = s["character"] if l == s["line"] else 0
        y = e["character"] if l == e["line"] else T.pos(T.lines[l][1])["character"]
        if y > x:
            out.append((l, x, y - x))
    return out

def atoms(ents, top, b, out):
    """(start, end, kinds) of the keys and scalar values the tokens must cover."""
    for e in ents:
        k, v = e[0], e[1]
        a = k["sp"]
        attr = b[a[1]:a[1] + 1] == b">"
        # the segments of a dotted path are parts of one token
        dotted = b[a[1]:a[1] + 1] == b"." or b[a[0] - 1:a[0]] == b"." or b"." in b[a[0]:a[1]]
        if "s" in k and "g" not in k and k["k"] != "heredoc" and not attr and not dotted:
            out.append((a[0], a[1], "property"))
        value_atoms(v, b, out)

def value_atoms(v, b, out):
    a, e = v["sp"]
    if v.get("g"):
        return                     # the payload's own place is not known here
    if "s" in v and v["k"] != "heredoc" and not v.get("imp"):
        out.append((a, e, "string"))
    for x in v.get("q", ()):
        value_atoms(x, b, out)
    if "o" in v:
        atoms(v["o"], False, b, out)

LEGEND = None

def check_tokens(ctx, T, d, data, fail):
    l = c = 0
    seen, prev = {}, None
    for i in range(0, len(data), 5):
        dl, dc, n, ty, mod = data[i:i + 5]
        l, c = l + dl, (c if dl == 0 else 0) + dc
        ctx.count("semantic tokens")
        if prev and (l, c) < prev:
            return fail("tokens:overlap", f"the token at {l}:{c} starts before the one before it ends at {prev[0]}:{prev[1]}")
        if n <= 0:
            return fail("tokens:empty", f"the token at {l}:{c} has length {n}")
        prev = (l, c + n)
        t = T.range({"start": {"line": l, "character": c}, "end": {"line": l, "character": c + n}})
        if t is None:
            return fail("tokens:range", f"the token at {l}:{c} of length {n} is not inside line {T.t[T.lines[l][0]:T.lines[l][1]]!r}" if l < len(T.lines) else f"line {l} of {len(T.lines)}")
        kind = LEGEND[ty]
        seen[(l, c, n)] = kind
        if kind == "comment" and not t.startswith("//"):
            return fail("tokens:comment", f"{t!r} is classified as a comment")
        if kind == "type" and not t.startswith("@"):
            return fail("tokens:type", f"{t!r} is classified as a tag")
        if kind == "operator" and t != ">" and not t.lstrip(" \t").startswith("<<") and not re.fullmatch(r"\s*[A-Z][A-Z0-9_]*", t):
            return fail("tokens:operator", f"{t!r} is classified as an operator")
        if not t.strip(" \t") and kind not in ("string", "property"):
            return fail("tokens:blank", f"the {kind} token at {l}:{c} covers {t!r}")
    if d["v"] == "valid" and d.get("ok"):
        want = []
        atoms(d["ref"], True, T.b, want)
        for a, e, kind in want:
            for x in split_lines(T, a, e):
                ctx.count("atoms with tokens")
                if seen.get(x) != kind:
                    return fail("tokens:missing", f"no {kind} token for {T.b[a:e]!r} at {x}: {seen.get(x)} of {[(k, v) for k, v in seen.items() if k[0] == x[0]]}"[:600])

def check_symbols(ctx, T, syms, ents, parent, fail, path=""):
    """Against the reference's entries."""
    if ents is not None:
        want = [key_text(e[0]) for e in ents if "s" in e[0] and not e[0].get("g")]
        got = [s["name"] for s in syms]
        if got != want:
            return fail("symbols:names", f"{path or 'the document'} has the symbols {got}, its entries are {want}")
        spans = {tuple(e[0]["sp"]): e for e in ents}
    es = [e for e in ents if "s" in e[0] and not e[0].get("g")] if ents is not None else [None] * len(syms)
    for s, e in zip(syms, es):
        ctx.count("symbols")
        r, sel = T.span(s["range"]), T.span(s["selectionRange"])
        if r is None or sel is None:
            return fail("symbols:range", f"{s['name']!r}: {short(s['range'])} {short(s['selectionRange'])}")
        if not (r[0] <= sel[0] and sel[1] <= r[1]):
            return fail("symbols:selection", f"{s['name']!r}: the selection is outside the range")
        if parent and not (parent[0] <= r[0] and r[1] <= parent[1]):
            return fail("symbols:nesting", f"{s['name']!r}: {r} is not inside its parent's {parent}")
        text = T.b[sel[0]:sel[1]].decode("utf-8", "replace")
        if text != s["name"]:
            # a spelled key: its place must be the key's
            if not text[:1] in ('"', "r", "<") or (e is not None and list(sel) != e[0]["sp"]):
                return fail("symbols:text", f"the symbol {s['name']!r} selects {text!r}")
        if e is not None and e[1].get("s") is None and "o" not in e[1]:
            if s.get("children"):
                return fail("symbols:children", f"{s['name']!r} has children")
        check = check_symbols(ctx, T, s.get("children") or [], (e[1].get("o") or []) if e is not None else None, r, fail, path + "." + s["name"])
        if check:
            return check

def positions_one(ctx, r, S, lib, uri, T, d, others):
    """One document: every kind of answer, all ranges."""
    texts = {uri: T, **others}
    def fail(sig, msg):
        ctx.fail("position:" + sig, msg, text=T.t)
        return True
    S.open(uri, T.t)
    diags = S.published(uri, 1)
    for x in diags:
        t = T.range(x["range"])
        ctx.count("diagnostics")
        if t is None:
            fail("diagnostic", f"{short(x['range'])} is not in the document: {x['message']!r}")
            continue
        m = re.match(r"unknown field '(.*?)'", x["message"])
        if x.get("source") == "styx-schema" and m and (x.get("data") or {}).get("type") == "rename_field":
            ctx.count("named fields")
            if t != x["data"]["from"] and t[:1] not in '"r':
                fail("unknown-field", f"the field {x['data']['from']!r} is marked as {t!r}")
    # the library's error places
    if d.get("ok") is False and d.get("errors"):
        want = [T.brange(*e) for e in d["errors"]]
        ctx.count("library errors")
        if not any(x["range"] in want for x in diags if x.get("severity") == 1):
            fail("error", f"the parser's errors are at {short(want)}, the editor's marks at {short([x['range'] for x in diags])}")
    reqs = [ask_of(r, k, uri, T, diags) for k in SIMPLE] + [ask_of(r, k, uri, T, diags) for k in PLACED for _ in range(2)]
    ms = [S.message(m, p) for m, p in reqs]
    S.send(*ms)
    for m in ms:
        a = S.wait(m["id"])
        kind = m["method"].split("/", 1)[1]
        if "error" in a:
            fail("answer", f"{m['method']}: {a['error']}")
            continue
        a = a["result"]
        ctx.eval(f"{kind} {T.t} {m['params'].get('position')}")
        ctx.count(kind)
        if a is None:
            continue
        ctx.count(f"{kind} answered")
        if kind == "semanticTokens/full":
            check_tokens(ctx, T, d, a["data"], fail)
            continue
        def walk(j, doc):
            if isinstance(j, dict):
                if isinstance(j.get("changes"), dict):
                    for u, es in j["changes"].items():
                        walk(es, u)
                    j = {k: v for k, v in j.items() if k != "changes"}
                if isinstance(j.get("uri"), str) and "range" in j:
                    doc = j["uri"]
                for k, v in j.items():
                    if k in ("range", "selectionRange", "targetRange", "position"):
                        q = v if "start" in v else {"start": v, "end": v}
                        tx = texts.get(doc)
                        ctx.count("ranges")
                        if tx is None:
                            ctx.count("ranges in texts we do not have")
                        elif tx.range(q) is None:
                            fail("range", f"{kind}: {short(q)} is not in {'the document' if doc == uri else doc}")
                    elif k != "data":
                        walk(v, doc)
            elif isinstance(j, list):
                for v in j:
                    walk(v, doc)
        walk(a, uri)
        if kind == "documentSymbol":
            check_symbols(ctx, T, a, d["ref"] if d["v"] == "valid" and d.get("ok") and d["ref"] == d["tree"] else None, None, fail)
        elif kind in ("definition", "references"):
            at = T.index(m["params"]["position"])
            w = texts
            for loc in a if isinstance(a, list) else [a]:
                if loc["uri"] in texts and loc["range"]["start"] != loc["range"]["end"]:
                    t = texts[loc["uri"]].range(loc["range"])
                    ctx.count("locations")
                    # the place asked about is in an entry of that name
                    if t is not None and t[:1] not in ('"', "r", "<") and t not in T.t and "\\" not in T.t:
                        fail("location", f"{kind} at {m['params']['position']} leads to {t!r} in {loc['uri']}, which the document does not mention")
        elif kind in ("hover", "documentLink") and decl_text(d):
            for x in a if isinstance(a, list) else [a]:
                if x.get("range") and T.range(x["range"]) not in (None, decl_text(d)):
                    fail("declaration", f"{kind}: {T.range(x['range'])!r} is not the declared schema {decl_text(d)!r}")
        elif kind == "completion":
            pos = m["params"]["position"]
            for x in a if isinstance(a, list) else a["items"]:
                q = (x.get("textEdit") or {}).get("range")
                if q and not (q["start"]["line"] == q["end"]["line"] == pos["line"] and q["start"]["character"] <= pos["character"] <= q["end"]["character"]):
                    fail("completion", f"the completion at {pos} replaces {short(q)}")
                elif q and re.search(r"\s", T.range(q) or ""):
                    fail("completion-word", f"the completion at {pos} replaces {T.range(q)!r}")
    S.close_doc(uri)
    S.until(lambda: S.diags.get(uri, [{}])[-1].get("diagnostics") == [] and S.diags[uri][-1].get("version") is None, 20)
    S.diags.pop(uri, None)
    S.answers.clear()

def decl_text(d):
    p = d.get("path")
    return None if p is None else f'"{p}"' if " " in p else p

def parallel(ctx, exe, site, jobs, work):
    """work(server, i, item) over the items, on several servers; a dead server is a violation and is replaced."""
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    stop = time.time() + (560 if ctx.thorough else 75)
    def run(k):
        S = Server(exe, site.home, site.root)
        lost = 0
        while lost < 6:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            if time.time() > stop:
                ctx.extra["cut_by_time"] = True
                break
            try:
                work(S, k, j)
            except Gone as e:
                ctx.fail("server:" + re.sub(r"\d+", "N", str(e))[:80], str(e), text=str(j)[:4000])
                lost += 1
                S.kill()
                S = Server(exe, site.home, site.root)
        e = S.end()
        if e:
            ctx.fail("server:end", e)
    with ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(run, k) for k in range(6)]:
            f.result()

def positions(ctx, exe, root):
    global LEGEND
    k = 12 if ctx.thorough else 1
    r0 = random.Random(ctx.seed)
    docs = material(ctx, (("gen", 350 * k), ("plain", 200 * k), ("mut", 350 * k), ("soup", 150 * k)))
    site = Site(root, core.generate(ctx, "schema", 120 * k))
    lib = Library()
    for d in docs:
        wide(r0, d, lib)
    S = Server(exe, site.home, site.root)
    LEGEND = S.caps["semanticTokensProvider"]["legend"]["tokenTypes"]
    enc = S.caps.get("positionEncoding", "utf-16")
    S.end()
    if enc != "utf-16":
        raise Undecided("the server counts columns in " + enc)
    ctx.rule = "one answer to one request; distinct by document, kind and position"
    ctx.must += ["ranges", "diagnostics", "semantic tokens", "atoms with tokens", "symbols", "library errors", "locations", "completion answered", "hover answered", "formatting answered"]
    jobs = [("text", d) for d in docs]
    for d0, schema, ds in site.sets:
        jobs += [("schema", d0, schema, d) for d in ds]
    r0.shuffle(jobs)
    jobs = [(i,) + j for i, j in enumerate(jobs)]
    def work(S, k, j):
        r = random.Random(f"{ctx.seed}/{j[0]}")
        if j[1] == "text":
            d = j[2]
            uri = uri_of(os.path.join(root, "docs", f"d {j[0]}.styx"))
            positions_one(ctx, r, S, lib, uri, Text(d["t"]), d, {})
        else:
            _, _, d0, schema, d = j
            full = dict(lib(d["decl"]), path=d["path"])
            uri = uri_of(os.path.join(d0, f"doc{j[0]}.styx"))
            su = uri_of(os.path.normpath(os.path.join(d0, d["path"])))
            su2 = uri_of(os.path.join(d0, d["path"]))
            sch = Text(schema)
            positions_one(ctx, r, S, lib, uri, Text(d["decl"]), full, {su: sch, su2: sch})
        ctx.count("documents")
    parallel(ctx, exe, site, jobs, work)
    lib.end()
    ctx.assumptions = ["columns are UTF-16 units, the protocol's default, as the server announces no other encoding", "the reference reader's places of keys and scalars"]

def wide(r, d, lib):
    """Put wide characters and other line ends into some documents, in comments at their start."""
    k = r.random()
    if k < 0.25:
        d.update(lib("// \U0001f600 é\u0301 日本\n" + d["t"]))
    elif k < 0.32:
        d.update(lib("// c\r\n" + d["t"].replace("\n", "\r\n")))

# -- C24: histories

CYCLES = ['schema {\n@ @object{a @A, j @optional(@Json), e @Expr, n @Node}\nA @B\nB @B2\nB2 @A\nJson @union(@string @seq(@Json) @map(@Json))\nExpr @enum{neg @Expr, lit @int, add @tuple(@Expr @Expr)}\nNode @object{@ @Node, name @string}\n}\n',
          'schema {\n@ @A\nA @A\n}\n', 'schema {\n@ @optional(@Self)\nSelf @optional(@Self)\n}\n', 'schema {\n@ @T\nT @object{@string @T}\n}\n', 'schema {@ @flatten(@X)\nX @object{a @flatten(@X), b @X}}\n',
          'schema {@ @E\nE @enum{a @E, b @F}\nF @object{c @E, @string @F}}\n']
CYCLIC = ['a 1\nj (a (b) {c ()})\ne @neg @neg@lit 1\nn {name x, k {name y, z {}}}\nzz 1\n', 'a {b {c {d 1}}}\n', 'x\n', '', '@a{c @b{c @a{}}}\n']

def canon(kind, a):
    """An answer, comparable: locations and completions have no order."""
    if "error" in a:
        return ["error", a["error"].get("code")]
    x = a["result"]
    if kind in ("references", "definition", "completion") and isinstance(x, list):
        return sorted(x, key=lambda y: json.dumps(y, sort_keys=True))
    return x

class Quiet:
    """A second server that sees one document at a time and one request at a time."""
    def __init__(self, exe, site):
        self.exe, self.site, self.S, self.seen, self.at, self.n = exe, site, None, {}, None, 0
        self.E = None            # a server that never sees a document: what it says of a closed one
    def go(self, uri, text):
        if self.S is None:
            self.S, self.at = Server(self.exe, self.site.home, self.site.root), None
        if self.at == (uri, text):
            return
        if self.at and self.at[1] is not None:
            self.S.close_doc(self.at[0])
        self.S.diags.clear()
        self.S.answers.clear()
        self.at = (uri, text)
        self.n += 1
        if text is not None:
            self.S.open(uri, text, self.n)
            self.seen[uri, text] = self.S.published(uri, self.n)
    def diags(self, uri, text):
        if (uri, text) not in self.seen:
            self.go(uri, text)
        return self.seen[uri, text]
    def answer(self, uri, text, method, params):
        k = (text, method, json.dumps(params, sort_keys=True))
        if k not in self.seen:
            if text is None:
                if self.E is None or self.E.dead:
                    self.E = Server(self.exe, self.site.home, self.site.root)
                S = self.E
            else:
                self.go(uri, text)
                S = self.S
            self.seen[k] = canon(method.split("/", 1)[-1], S.call(method, params))
        return self.seen[k]
    def end(self):
        for S in (self.S, self.E):
            if S:
                S.kill()

def history(ctx, r, S, Q, docs, pool):
    """docs: the uris with the texts they can have."""
    state = {u: None for u in docs}      # uri -> (text, version)
    log = []
    def fail(sig, msg, **kw):
        ctx.fail("history:" + sig, msg, text="\n".join(log[-60:])[-12000:], **kw)
    S.diags.clear()
    S.answers.clear()
    total = {}
    for burst in range(r.randrange(3, 8)):
        ms, asked = [], []
        texts = {u: [state[u] and state[u][0]] for u in docs}     # what each document was during this burst
        for _ in range(r.choice([1, 2, 4, 8, 16, 30])):
            u = r.choice(docs)
            k = r.random()
            st = state[u]
            if st is None and k < 0.8:
                t, v = r.choice(pool[u]), r.choice([0, 1, 1, 7])
                state[u] = (t, v)
                ms.append(S.message("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "styx", "version": v, "text": t}}, False))
                texts[u].append(t)
                log.append(f"open {u} {v} {t[:200]!r}")
                ctx.count("opened")
            elif st is not None and k < 0.3:
                ts = [r.choice(pool[u]) if r.random() < 0.5 else near(r, st[0]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
                v = st[1] + r.choice([1, 1, 1, 5])
                state[u] = (ts[-1], v)
                ms.append(S.message("textDocument/didChange", {"textDocument": {"uri": u, "version": v}, "contentChanges": [{"text": t} for t in ts]}, False))
                texts[u].append(ts[-1])
                log.append(f"change {u} {v} {len(ts)} {ts[-1][:200]!r}")
                ctx.count("changed")
            elif st is not None and k < 0.38:
                state[u] = None
                ms.append(S.message("textDocument/didClose", {"textDocument": {"uri": u}}, False))
                texts[u].append(None)
                log.append(f"close {u}")
                ctx.count("closed")
            elif st is not None and k < 0.42:
                ms.append(S.message("textDocument/didSave", {"textDocument": {"uri": u}}, False))
                log.append(f"save {u}")
            elif k < 0.44:
                m = S.message("workspace/executeCommand", {"command": "styx.allowExtension", "arguments": [{"command": "no-such-extension"}]})
                ms.append(m)
                asked.append((m, None, None, None))
                log.append("allow")
                ctx.count("commands")
            else:
                kind = r.choice(SIMPLE + PLACED)
                text = st[0] if st else r.choice(pool[u])
                method, p = ask_of(r, kind, u, Text(text), Q.diags(u, text) if kind == "codeAction" and st else ())
                if "position" in p and r.random() < 0.05:
                    p["position"] = {"line": r.choice([0, 3, 10 ** 6]), "character": r.choice([0, 10 ** 6])}
                m = S.message(method, p)
                ms.append(m)
                asked.append((m, u, len(texts[u]) - 1, kind))
                log.append(f"{m['id']} {kind} {u} {p.get('position')}")
                ctx.count("requests")
                if r.random() < 0.06:
                    ms.append(S.message("$/cancelRequest", {"id": m["id"]}, False))
                    log.append(f"cancel {m['id']}")
                    asked[-1] = (m, u, None, kind)
                    ctx.count("cancels")
        if r.random() < 0.7:
            S.send(*ms)
        else:
            for m in ms:
                S.send(m)
        for m, u, at, kind in asked:
            a = S.wait(m["id"])
            total[m["id"]] = 1
            if u is None:
                continue
            got = canon(kind, a)
            if at is None:
                if got != ["error", -32800] and "error" in a:
                    fail("cancelled", f"{kind}: {a['error']}")
                continue
            later = texts[u][at:]
            ctx.eval(f"{kind} {u} {later[0]} {m['params']}")
            if kind in ("references", "definition"):
                continue                      # these look into the other documents; compared below
            if "position" in m["params"] or kind == "codeAction" or kind == "inlayHint":
                ctx.count("answers compared at a place")
            if not any(got == Q.answer(u, t, m["method"], m["params"]) for t in dict.fromkeys(later)):
                old = next((i for i, t in enumerate(texts[u][:at]) if got == Q.answer(u, t, m["method"], m["params"])), None)
                fail("stale:" + kind if old is not None else "answer:" + kind, f"{kind} of {u} ({m['params']}) is answered with {short(got)}, a fresh server says {short(Q.answer(u, later[0], m['method'], m['params']))}" + (f" and gives this answer for an earlier text ({at - old} changes ago)" if old is not None else ""), now=later[0], got=got, want=Q.answer(u, later[0], m["method"], m["params"]))
                return
            ctx.count("answers compared")
            if len(later) > 1:
                ctx.count("answers with changes behind them")
        # the last published diagnostics
        for u in docs:
            if state[u] is None and not S.diags.get(u):
                continue
            want = Q.diags(u, state[u][0]) if state[u] else []
            v = state[u][1] if state[u] else None
            right = lambda: S.diags.get(u) and S.diags[u][-1].get("version") == v and S.diags[u][-1]["diagnostics"] == want
            if not S.until(right, 15):
                last = S.diags.get(u, [None])[-1]
                fail("diagnostics", f"the last diagnostics of {u} are {short(last)}, they should be {short(want)} for version {v}", now=state[u], got=last, want=want)
                return
            ctx.count("diagnostics compared")
    # references and definitions, with the same documents open
    opened = [u for u in docs if state[u]]
    if opened:
        asked = []
        for _ in range(4):
            u = r.choice(opened)
            asked.append((u,) + ask_of(r, r.choice(["references", "definition"]), u, Text(state[u][0])))
        got = [canon(m.split("/")[1], S.call(m, p)) for u, m, p in asked]
        Q.go(opened[0], None)
        order = r.sample(opened, len(opened))
        for u in order:
            Q.n += 1
            Q.S.open(u, state[u][0], Q.n)
            Q.S.published(u, Q.n)
        for (u, m, p), g in zip(asked, got):
            w = canon(m.split("/")[1], Q.S.call(m, p))
            ctx.count("locations compared")
            ctx.eval(f"{m} {p} {[state[x] for x in opened]}")
            if g != w:
                fail("locations", f"{m} ({p['position']}) in {u} is answered with {short(g)}, a fresh server with the same documents says {short(w)}")
        for u in order:
            Q.S.close_doc(u)
    # nothing comes afterwards
    for u in docs:
        if state[u]:
            S.close_doc(u)
    for u in docs:
        if S.diags.get(u) and not S.until(lambda: S.diags[u][-1]["diagnostics"] == [] and S.diags[u][-1].get("version") is None, 15):
            fail("closed", f"{u} is closed and its last diagnostics are {short(S.diags[u][-1])}")
    for u in docs:
        if state[u]:
            for kind in ("documentSymbol", "hover", r.choice(SIMPLE + PLACED)):
                m, p = ask_of(r, kind, u, Text(state[u][0]))
                g, w = canon(kind, S.call(m, p)), Q.answer(u, None, m, p)
                ctx.count("closed documents asked about")
                if g != w:
                    fail("closed:" + kind, f"{u} is closed, {m} is answered with {short(g)}, a server that never saw it says {short(w)}")
    S.call("textDocument/documentSymbol", {"textDocument": {"uri": docs[0]}})
    for i in total:
        if len(S.answers.get(i, [])) != 1:
            fail("responses", f"request {i} has {len(S.answers.get(i, []))} responses")
    for u in docs:
        if S.diags.get(u) and S.diags[u][-1]["diagnostics"]:
            fail("closed", f"{u} is closed and its last diagnostics are {short(S.diags[u][-1])}")
    ctx.count("histories")

def histories(ctx, exe, root):
    k = 12 if ctx.thorough else 1
    r0 = random.Random(ctx.seed)
    texts = [d["t"] for d in material(ctx, (("gen", 150 * k), ("plain", 100 * k), ("mut", 200 * k), ("soup", 100 * k), ("big", 12 * k)))]
    schemas = core.generate(ctx, "schema", 100 * k)
    for c in CYCLES:
        schemas.append({"schema": c, "docs": [{"t": t, "decl": f"@schema c.styx\n{t}", "path": "c.styx", "want": "open"} for t in CYCLIC]})
    site = Site(root, schemas)
    ctx.rule = "one request's answer; distinct by document text and request"
    ctx.must += ["opened", "changed", "closed", "cancels", "commands", "answers compared", "answers with changes behind them", "diagnostics compared", "locations compared", "closed documents asked about", "histories"]
    quiets, lock = {}, threading.Lock()
    def work(S, kk, i):
        r = random.Random(f"{ctx.seed}/{i}")
        with lock:
            Q = quiets.setdefault(kk, Quiet(exe, site))
        docs, pool = [], {}
        for n in range(r.choice([1, 2, 3, 4])):
            if r.random() < 0.6:
                d0, _, ds = r.choice(site.sets[-6:]) if r.random() < 0.25 else r.choice(site.sets)
                u, ts = uri_of(os.path.join(d0, f"h {n} {i}.styx")), [d["decl"] for d in ds] + [r.choice(texts)]
            else:
                u, ts = uri_of(os.path.join(root, "docs", f"h {n} {i}.styx")), [r.choice(texts) for _ in range(4)]
            docs.append(u)
            pool[u] = ts
        try:
            history(ctx, r, S, Q, docs, pool)
        except Gone:
            if Q.S and Q.S.dead:
                Q.S = None
                Q.seen = {}
            raise
        if i % 20 == 0:
            Q.seen = {}
            Q.at = None if Q.S is None else Q.at
    parallel(ctx, exe, site, list(range(500 * k)), work)
    for Q in quiets.values():
        Q.end()
    ctx.assumptions = ["a fresh server that sees one document and one request at a time answers rightly (C25-C27 check it), and one that never saw a document knows nothing of it", "a request whose document changes again before it is answered may be answered for the newer text"]

# -- C26: diagnostics against the library and the command line

def declares(tree):
    """The value of the document's schema declaration, if it has one."""
    for e in tree or ():
        k = e[0]
        if (k.get("g") or [None])[0] == "schema":
            return e[1]
    return None

def bare(v):
    return not any(x in v for x in ("s", "q", "o", "g"))

BROKEN = ["missing.styx", '"no such directory/x.styx"', "http://example.com/s.styx", "https://example.com/s.styx", "(a b)", "{id a}", "{cli no-such-tool}", "{id x, cli no-such-tool}", "@tag", "@tag(x)",
          "notes.styx", "faulty.styx", ".", "{cli tool-none}", "{cli tool}", "{id first@1, cli tool}", "{id second@1, cli tool}", "{id third@1, cli tool}", "{id @, cli tool}", "{id first@1, cli (tool)}", "@", ""]

def tools(site, schemas):
    """Files on the PATH with embedded schemas; they are read, never run."""
    from . import blob
    a, b = schemas
    for name, texts in (("tool", [a, b]), ("tool-none", [])):
        p = os.path.join(site.home, "bin", name)
        with open(p, "wb") as f:
            f.write(b"#!/bin/false\n" + b"".join(b"\0" * 7 + blob.blob(t) for t in texts) + b"\0end")
        os.chmod(p, 0o755)

def with_id(schema, id):
    """The schema with this meta.id, in front."""
    return schema.replace("id ", f"id {id} //", 1) if False else re.sub(r'(?m)^(\s*meta\s*\{)[^}]*\}', lambda m: m[1] + f"id {id}, version 1.0.0}}", schema, count=1)

def near(r, t):
    """A single fault somewhere in a text."""
    if not t:
        return r.choice("{}()\"@> ")
    i = r.randrange(len(t))
    k = r.random()
    if k < 0.4:
        return t[:i] + t[i + 1:]
    if k < 0.7:
        return t[:i] + r.choice(["{", "}", "(", ")", '"', "@", ">", "x", " ", "\n", ".", ",", "\u00e9"]) + t[i:]
    j = min(len(t), i + r.randrange(1, 12))
    return t[:i] + t[j:]

def agreement(ctx, exe, root):
    k = 12 if ctx.thorough else 1
    r0 = random.Random(ctx.seed)
    docs = material(ctx, (("gen", 500 * k), ("plain", 250 * k), ("mut", 600 * k), ("soup", 200 * k), ("big", 10 * k)))
    schemas = core.generate(ctx, "schema", 250 * k)
    site = Site(root, schemas)
    lib = Library()
    meta = [s for s in (with_id(x["schema"], i) for x, i in zip(schemas[:40], ["first@1"] * 40)) if "first@1" in s and lib(s)["ok"]]
    first = meta[0] if meta else 'meta {id first@1, version 1.0.0}\nschema {@ @object{a @int}}\n'
    tools(site, [first, 'meta {id second@1, version 1.0.0}\nschema {@ @object{b @int}}\n'])
    ctx.rule = "one document's published diagnostics; distinct by document text"
    ctx.must += ["faulty text", "faulty against its schema", "conforming", "schema cannot be used", "declared"]
    jobs = [(None, None, d["t"]) for d in docs]
    for d0, schema, ds in site.sets:
        for d in ds:
            jobs.append((d0, None, d["decl"]))
            if r0.random() < 0.5:
                jobs.append((d0, None, near(r0, d["decl"])))
            if r0.random() < 0.25:
                decl = r0.choice(BROKEN)
                body = d["t"]
                jobs.append((d0, None, f"@schema {decl}\n{body}" if r0.random() < 0.8 else f"{body}\n@schema {decl}\n"))
        with open(os.path.join(d0, "notes.styx"), "w") as f:
            f.write("just some\nnotes here\n")
        with open(os.path.join(d0, "faulty.styx"), "w", newline="") as f:
            f.write(near(r0, schema))
    r0.shuffle(jobs)
    jobs = [(i,) + j for i, j in enumerate(jobs)]
    os.makedirs(os.path.join(root, "docs"))
    e = {"PATH": os.path.join(site.home, "bin") + ":/usr/bin:/bin", "HOME": site.home, "LANG": "C.UTF-8"}
    def work(S, kk, j):
        i, d0, _, t = j
        path = os.path.join(d0 or os.path.join(root, "docs"), f"agree {i}.styx")
        with open(path, "w", newline="") as f:
            f.write(t)
        uri = uri_of(path)
        S.open(uri, t)
        l = lib(t)
        decl = declares(l["tree"]) if l["ok"] else None
        p = None
        if not l["ok"]:
            want, why = True, "the text does not parse"
            ctx.count("faulty text")
        elif decl is None or bare(decl):
            want, why = False, "the text parses and no schema is declared"
            ctx.count("undeclared")
        else:
            p = subprocess.run([exe, path, "--validate"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=root, timeout=60)
            want, why = p.returncode != 0, f"the command line exits {p.returncode}: {p.stdout.decode('utf-8', 'replace')[:300]}"
            if p.returncode < 0 or p.returncode > 100:
                raise Gone(why)
            ctx.count("declared")
            ctx.count({0: "conforming", 2: "faulty against its schema"}.get(p.returncode, "schema cannot be used"))
        diags = S.published(uri, 1)
        errors = [x for x in diags if x.get("severity") == 1]
        ctx.eval(t)
        if errors and not want and l["v"] == "unspecified":
            ctx.count("left open by the specification")
        elif bool(errors) != want:
            ctx.fail("agreement:" + ("silent" if want else "alarm: " + re.sub(r"[^a-z ]", "", errors[0]["message"])[:30]), f"the editor shows {short([x['message'] for x in errors])}, but {why}", text=t, path=path)
        S.close_doc(uri)
        os.remove(path)
        if i % 50 == 0:
            S.diags.clear()
    parallel(ctx, exe, site, jobs, work)
    lib.end()
    ctx.assumptions = ["`@schema @` asks the editor not to validate, so only the text's own errors count there", "the command line's exit status with --validate (C16, C20 check it)"]

# -- C27: edits

def strip(v):
    """A tree without places; scalars without their spelling."""
    if isinstance(v, list):
        return [strip(x) for x in v]
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if k not in ("sp", "imp", "k")}
    return v

def renamed(ents, span, name):
    return [[dict({k: v for k, v in e[0].items()}, s=name) if e[0]["sp"] == span else e[0], sub_renamed(e[1], span, name)] + e[2:] for e in ents]

def sub_renamed(v, span, name):
    v = dict(v)
    if "o" in v:
        v["o"] = renamed(v["o"], span, name)
    if "q" in v:
        v["q"] = [sub_renamed(x, span, name) for x in v["q"]]
    return v

def extra(old, new):
    """How many entries `new` has on top of all of `old`'s, in order; None if something is lost or changed."""
    if isinstance(old, list) and old and isinstance(old[0], list):
        pass
    n, i = 0, 0
    for e in new:
        if i < len(old) and e[0] == old[i][0] and e[2:] == old[i][2:]:
            x = extra_value(old[i][1], e[1])
            if x is not None:
                n += x
                i += 1
                continue
        n += 1
    return n if i == len(old) else None

def extra_value(a, b):
    if {k: v for k, v in a.items() if k != "o"} != {k: v for k, v in b.items() if k != "o"}:
        return None if not ("q" in a and "q" in b and a.get("g") == b.get("g") and len(a["q"]) == len(b["q"])) else sum_or_none([extra_value(x, y) for x, y in zip(a["q"], b["q"])])
    if ("o" in a) != ("o" in b):
        return None
    return extra(a["o"], b["o"]) if "o" in a else 0

def sum_or_none(xs):
    return None if None in xs else sum(xs)

def comments(S, uri, T):
    """The document's comments, as the server classifies them."""
    kind = S.caps["semanticTokensProvider"]["legend"]["tokenTypes"].index("comment")
    a = S.ask("textDocument/semanticTokens/full", {"textDocument": {"uri": uri}})
    out, l, c = [], 0, 0
    for i in range(0, len(a["data"]), 5):
        dl, dc, n, ty, _ = a["data"][i:i + 5]
        l, c = l + dl, (c if dl == 0 else 0) + dc
        if ty == kind:
            out.append((T.range({"start": {"line": l, "character": c}, "end": {"line": l, "character": c + n}}) or "?").rstrip())
    return sorted(out)

def root_names(tree):
    """The field names of a schema's root type, in the order of the source; None if that takes more than a look."""
    for e in tree or ():
        if e[0].get("s") == "schema" and "o" in e[1]:
            for d in e[1]["o"]:
                if not any(x in d[0] for x in "sqog"):
                    v = d[1]
                    if v.get("g") == ["object"] and "o" in v and not any(x[1].get("g") == ["flatten"] for x in v["o"]):
                        return [x[0]["s"] for x in v["o"] if "s" in x[0] and not x[0].get("g")]
    return None

def edits_one(ctx, r, S, lib, uri, t, version, names=None):
    T = Text(t)
    l = lib(t)
    def fail(sig, msg, **kw):
        ctx.fail("edits:" + sig, msg, text=t, uri=uri, **kw)
    S.open(uri, t, version)
    diags = S.published(uri, version)
    # formatting
    for _ in range(2):
        n, spaces = r.choice([1, 2, 3, 4, 8, 0]), r.random() < 0.75
        a = S.ask("textDocument/formatting", {"textDocument": {"uri": uri}, "options": {"tabSize": n, "insertSpaces": spaces}})
        want = lib(t, " " * n if spaces else "\t")["fmt"]
        got, bad = T.apply(a or [])
        ctx.eval(f"format {n} {spaces} {t}")
        ctx.count("formattings")
        ctx.count("formattings that edit", 1 if a else 0)
        if bad:
            fail("format-range", bad)
        elif a is None and not l["ok"]:
            pass
        elif got != want:
            fail("format", f"after the edits: {got[-300:]!r}, the formatter gives {want[-300:]!r}")
    # on typing Enter
    if len(T.lines) > 1:
        for _ in range(2):
            li = r.randrange(1, len(T.lines))
            a0, e0 = T.lines[li]
            ws = len(t[a0:e0]) - len(t[a0:e0].lstrip(" \t"))
            a = S.ask("textDocument/onTypeFormatting", {"textDocument": {"uri": uri}, "position": {"line": li, "character": r.choice([0, ws, T.pos(r.randint(a0, e0))["character"]])}, "ch": "\n", "options": {"tabSize": r.choice([2, 4]), "insertSpaces": True}})
            ctx.count("newlines typed")
            got, bad = T.apply(a or [])
            ctx.eval(f"enter {li} {t}")
            if bad:
                fail("enter-range", bad)
            elif a and got != t:
                ctx.count("newlines indented")
                solid = lambda x: x.replace(" ", "").replace("\t", "")
                if solid(got) != solid(t):
                    fail("enter-text", f"indenting line {li} ({t[a0:e0]!r}) by {short(a)} changes more than its indentation")
                if l["ok"]:
                    n = lib(got)
                    if not n["ok"] or strip(n["tree"]) != strip(l["tree"]):
                        fail("enter", f"indenting line {li} ({t[a0:e0]!r}) by {short(a)} changes the document's value", line=li)
    # code actions
    spots = [T.brange(*x["range_b"]) for x in ()]
    spots = [x["range"]["start"] for x in diags] + [spot(r, T) for _ in range(3)]
    r.shuffle(spots)
    for q in spots[:5]:
        acts = S.ask("textDocument/codeAction", {"textDocument": {"uri": uri}, "range": {"start": q, "end": q}, "context": {"diagnostics": diags}}) or []
        ctx.count("code action requests")
        for act in acts:
            title = act["title"]
            es = ((act.get("edit") or {}).get("changes") or {})
            if not es:
                continue
            kind = "fill" if title.startswith("Fill") else "rename" if title.startswith("Rename") else "reorder" if title.startswith("Reorder") else "declare"
            ctx.count("code actions: " + kind)
            ctx.eval(f"{title} {q} {t}")
            if set(es) != {uri}:
                fail("action-files", f"{title!r} edits {list(es)}")
                continue
            got, bad = T.apply(es[uri])
            if bad:
                fail("action-range", f"{title!r}: {bad}")
                continue
            if not l["ok"]:
                continue
            n = lib(got)
            if not n["ok"]:
                fail("action-invalid:" + kind, f"{title!r} gives a text that does not parse: {got[-600:]!r}")
                continue
            a, b = strip(l["tree"]), strip(n["tree"])
            if kind == "rename":
                m = re.match(r"Rename '(.*)' to '(.*)'", title, re.S)
                sp = list(T.span(es[uri][0]["range"]))
                want = strip(renamed(l["tree"], sp, m[2]))
                if b != want:
                    fail("rename", f"{title!r} gives {short(b)}, not {short(want)}")
            elif kind == "reorder":
                key = lambda e: json.dumps(e, sort_keys=True)
                if sorted(map(key, a)) != sorted(map(key, b)):
                    fail("reorder", f"{title!r} gives {short(b)} from {short(a)}")
                mine = [e[0].get("s") for e in b if not e[0].get("g")]
                known = [x for x in mine if x in (names or ())]
                if names is not None:
                    ctx.count("orders compared")
                    if known != [x for x in dict.fromkeys(names) if x in known] and len(set(known)) == len(known):
                        fail("reorder-order", f"{title!r} puts the fields as {mine}, the schema has {names}")
                if declares(a[:1]) is not None and declares(b[:1]) is None:
                    fail("reorder-schema", f"{title!r} moves the schema declaration away from the start")
            else:
                x = extra(a, b)
                m = re.search(r"(\d+) ", title)
                want = int(m[1]) if kind == "fill" else 1
                if x != want:
                    fail(kind, f"{title!r} adds {x} entries: {short(b)} from {short(a)}")
            if kind != "rename":
                version += 1
                c0 = comments(S, uri, T)
                S.note("textDocument/didChange", {"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": got}]})
                c1 = comments(S, uri, Text(got))
                ctx.count("comments compared", len(c0))
                if c0 != c1:
                    fail("comments:" + kind, f"{title!r}: comments were {short(c0)}, are {short(c1)}")
                if kind == "fill":
                    d1 = S.published(uri, version)
                    missing = lambda ds: sorted(x["message"] for x in ds if "missing" in x["message"].lower() and x.get("source") == "styx-schema")
                    m0, m1 = missing(diags), missing(d1)
                    if " in " not in title and "required" in title and len(m1) > max(0, len(m0) - 1) and m0 and kind == "fill":
                        ctx.count("fills that leave something missing")
                version += 1
                S.note("textDocument/didChange", {"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": t}]})
    S.close_doc(uri)
    S.until(lambda: S.diags.get(uri, [{}])[-1].get("diagnostics") == [] and S.diags[uri][-1].get("version") is None, 20)
    S.diags.pop(uri, None)
    S.answers.clear()

def faulty(r, t, tree):
    """A declared document with misspelt, missing or reordered entries."""
    b = t.encode()
    es = [e for e in tree if e[0].get("g") is None and "s" in e[0]]
    if not es:
        return t
    k = r.random()
    e = r.choice(es)
    while "o" in e[1] and e[1]["o"] and r.random() < 0.5:
        e = r.choice(e[1]["o"])
    a, z = e[0]["sp"]
    key = b[a:z].decode("utf-8", "replace")
    if k < 0.45 and len(key) > 2 and e[0].get("k") == "bare":
        i = r.randrange(len(key))
        j = r.random()
        key = key[:i] + key[i + 1:] if j < 0.4 else key[:i] + "x" + key[i:] if j < 0.8 else key[:i] + key[i + 1:i + 2] + key[i:i + 1] + key[i + 2:]
        return b[:a].decode() + key + b[z:].decode()
    end = max(z, e[1]["sp"][1])
    if k < 0.75:
        return b[:a].decode() + b[end:].decode()
    f = r.choice(es)
    x, y = sorted([e, f], key=lambda q: q[0]["sp"][0])
    s1, s2 = (x[0]["sp"][0], max(x[0]["sp"][1], x[1]["sp"][1])), (y[0]["sp"][0], max(y[0]["sp"][1], y[1]["sp"][1]))
    if s1[1] > s2[0]:
        return t
    return (b[:s1[0]] + b[s2[0]:s2[1]] + b[s1[1]:s2[0]] + b[s1[0]:s1[1]] + b[s2[1]:]).decode()

def commented(r, t):
    """Comments at line ends and between lines of a document where nothing spans lines."""
    if re.search(r'["<\\]|r#', t):
        return t
    out = []
    for i, l in enumerate(t.split("\n")):
        if r.random() < 0.2:
            out.append(f"{' ' * r.randrange(3)}// note {i}")
        out.append(l + (f" // end {i}" if l.strip() and "//" not in l and r.random() < 0.25 else ""))
    return "\n".join(out)

def edits(ctx, exe, root):
    k = 12 if ctx.thorough else 1
    r0 = random.Random(ctx.seed)
    docs = material(ctx, (("gen", 350 * k), ("plain", 150 * k), ("mut", 200 * k), ("soup", 60 * k)))
    site = Site(root, core.generate(ctx, "schema", 200 * k))
    lib = Library()
    ctx.rule = "one answer with edits applied; distinct by document and request"
    ctx.must += ["formattings that edit", "newlines indented", "code actions: fill", "code actions: rename", "code actions: reorder", "code actions: declare", "comments compared", "orders compared"]
    jobs = []
    for d in docs:
        wide(r0, d, lib)
        jobs.append(("docs", d["t"]))
    order = {d0: root_names(lib(schema).get("tree")) for d0, schema, _ in site.sets}
    for d0, schema, ds in site.sets:
        for d in ds:
            if r0.random() < 0.35:
                jobs.append((d0, d["decl"]))
            x = d["decl"]
            for _ in range(2):
                l = lib(x)
                if l["ok"]:
                    x = commented(r0, faulty(r0, x, l["tree"]))
                    jobs.append((d0, x))
    for d in docs[:150 * k]:
        jobs.append((os.path.join(root, "proj", ".config"), d["t"]))
    r0.shuffle(jobs)
    jobs = [(i,) + j for i, j in enumerate(jobs)]
    def work(S, kk, j):
        i, d0, t = j
        r = random.Random(f"{ctx.seed}/{i}")
        p = os.path.join(root, "docs", f"e {i}.styx") if d0 == "docs" else os.path.join(d0, f"e{i}.styx") if not d0.endswith(".config") else os.path.join(d0, str(i), ".config", "captain", "config.styx")
        edits_one(ctx, r, S, lib, uri_of(p), t, 1, order.get(d0))
    parallel(ctx, exe, site, jobs, work)
    lib.end()
    ctx.assumptions = ["the formatter's own result (C03, C04 check it)", "the server's classification of comments (C25 checks it)"]

def run(ctx):
    core.build(False)
    exe = os.path.join(workspace(), "styx")
    with Scratch("lsp") as root:
        what = {"C24": "histories", "C25": "positions", "C26": "agreement", "C27": "edits"}[ctx.prop]
        globals()[what](ctx, exe, root)
