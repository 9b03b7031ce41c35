"""C40: `styx diff`, `styx package` and `styx publish`, run as a user runs them, with stand-ins for curl and cargo.

Schemas are models rendered as text; a history of edits with known effect turns the published schema into the local one.
Documents that the published schema accepts (the tool's own validation says so) are validated against the local one: if
one is refused, the comparison must have said "major". The stand-ins record what they are called with."""
import concurrent.futures, copy, io, os, random, re, subprocess, tarfile, threading, tomllib
from .common import Scratch, Undecided, workspace

WORDS = ["host", "port", "name", "tls", "items", "user", "size", "a", "x1", "kind", "level", "url", "max-size", "a b", "é", "type", "1", "schema", "meta"]
TYPES = ["Server", "Endpoint", "Mode", "Level", "Tags", "User", "Item", "Tls"]
VARIANTS = ["fast", "slow", "off", "on", "debug", "x", "node", "leaf", "string"]
VALUES = ["red", "green", "blue", "1", "true", "long-word"]
SCALARS = ["string", "int", "float", "bool"]

def q(s):
    return s if re.fullmatch(r"[A-Za-z0-9_-]+", s) else '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

# ---------------------------------------------------------------- schemas
# A type: {"t": kind, ...}; a field: {"name", "type", "doc"}; wrappers optional, default, deprecated are types.

class Gen:
    def __init__(self, r):
        self.r = r
        self.names = r.sample(TYPES, r.choice([0, 1, 2, 3, 4]))
    def schema(self):
        r = self.r
        types = {}
        for n in self.names:
            types[n] = r.choice([lambda: self.obj(2), lambda: self.obj(2), lambda: self.enum(2), lambda: self.scalar(), lambda: {"t": "seq", "of": [self.scalar()]}])()
        return {"meta": {"id": "https://example.com/s", "version": "1", "description": "first"}, "root": self.obj(3), "types": types, "order": list(self.names), "docs": {}}
    def scalar(self):
        r = self.r
        k = r.choice(SCALARS)
        c = {}
        if k == "string" and r.random() < 0.3:
            c = r.choice([{"minLen": 1}, {"maxLen": 6}, {"minLen": 2, "maxLen": 9}])
        if k in ("int", "float") and r.random() < 0.35:
            c = r.choice([{"min": 0}, {"max": 100}, {"min": -5, "max": 50}])
        return {"t": k, "c": c}
    def obj(self, depth):
        r = self.r
        fs = [{"name": n, "type": self.field(depth), "doc": r.choice(["", "", "What it is."])} for n in r.sample(WORDS, r.choice([0, 1, 2, 3, 4, 5]))]
        return {"t": "object", "fields": fs, "rest": self.type(1) if r.random() < 0.15 else None, "how": r.choice(["", "", "string"])}
    def enum(self, depth):
        r = self.r
        return {"t": "enum", "vs": [{"name": n, "type": r.choice([None, None, self.type(depth - 1)]), "doc": ""} for n in r.sample(VARIANTS, r.choice([1, 2, 3, 4]))]}
    def field(self, depth):
        r = self.r
        x = r.random()
        t = self.type(depth - 1)
        if x < 0.3:
            return {"t": "optional", "of": [t]}
        if x < 0.4:
            return self.default()
        if x < 0.5:
            return {"t": "deprecated", "why": "use another", "of": [r.choice([t, {"t": "optional", "of": [t]}, self.default()])]}
        return t
    def default(self):
        k = self.r.choice(SCALARS)
        return {"t": "default", "v": {"string": "abc", "int": "7", "float": "0.5", "bool": "true"}[k], "of": [{"t": k, "c": {}}]}
    def type(self, depth):
        r = self.r
        if depth <= 0:
            return r.choice([self.scalar, self.scalar, self.scalar, self.one_of, lambda: {"t": "any"}, self.ref])()
        return r.choice([self.scalar, self.scalar, self.ref, self.ref, self.one_of,
                         lambda: {"t": "seq", "of": [self.type(depth - 1)]},
                         lambda: {"t": "map", "of": [self.type(depth - 1)]},
                         lambda: {"t": "map", "of": [{"t": "string", "c": {}}, self.type(depth - 1)]},
                         lambda: {"t": "tuple", "of": [self.type(depth - 1) for _ in range(r.randint(1, 3))]},
                         lambda: {"t": "union", "of": [self.type(depth - 1) for _ in range(r.randint(1, 3))]},
                         lambda: {"t": "optional", "of": [self.type(depth - 1)]},
                         lambda: self.obj(depth - 1), lambda: self.obj(depth - 1), lambda: self.enum(depth)])()
    def one_of(self):
        return {"t": "one-of", "of": [{"t": "string", "c": {}}], "vals": self.r.sample(VALUES, self.r.randint(1, 4))}
    def ref(self):
        return {"t": "ref", "name": self.r.choice(self.names)} if self.names else self.scalar()

class Render:
    """One of the ways to write a schema."""
    def __init__(self, r=None):
        self.r = r
    def pick(self, *xs):
        return self.r.choice(xs) if self.r else xs[0]
    def type(self, t, ind):
        k = t["t"]
        if k in SCALARS:
            return f"@{k}" + ("{" + ", ".join(f"{a} {b}" for a, b in t["c"].items()) + "}" if t["c"] else "")
        if k == "any":
            return "@any"
        if k == "ref":
            return "@" + t["name"]
        if k == "one-of":
            return f"@one-of({self.type(t['of'][0], ind)} ({self.pick(' ', '  ').join(q(v) for v in t['vals'])}))"
        if k == "default":
            return f"@default({t['v']} {self.type(t['of'][0], ind)})"
        if k == "deprecated":
            return f'@deprecated("{t["why"]}" {self.type(t["of"][0], ind)})'
        if k == "object":
            es = [(f["doc"], q(f["name"]) if f["name"] != "@" else "@", self.type(f["type"], ind + 1)) for f in t["fields"]]
            if t["rest"]:
                es.append(("", "@" + t["how"], self.type(t["rest"], ind + 1)))
            return "@object" + self.block(es, ind)
        if k == "enum":
            return "@enum" + self.block([(v["doc"], q(v["name"]), "@" if v["type"] is None else self.type(v["type"], ind + 1)) for v in t["vs"]], ind)
        return f"@{k}(" + self.pick(" ", " ", "   ").join(self.type(x, ind) for x in t["of"]) + ")"
    def block(self, es, ind):
        if not es:
            return "{}"
        if not any(d for d, _, _ in es) and self.pick(False, False, True):
            return "{" + ", ".join(f"{k} {v}" for _, k, v in es) + "}" if not any("\n" in v for _, _, v in es) else self.lines(es, ind)
        return self.lines(es, ind)
    def lines(self, es, ind):
        pad = self.pick("  ", "    ", "\t") * (ind + 1)
        out = "{\n"
        for d, k, v in es:
            if self.pick(False, False, True):
                out += f"{pad}// {self.pick('note', 'another')}\n"
            if d:
                out += f"{pad}/// {d}\n"
            out += f"{pad}{k} {v}" + self.pick("", "", "   ") + "\n" + self.pick("", "", "\n")
        return out + "}"
    def schema(self, s, meta=None):
        m = dict(s["meta"], **(meta or {}))
        es = [(s["docs"].get("@", ""), "@", self.type(s["root"], 1))] + [(s["docs"].get(n, ""), n, self.type(s["types"][n], 1)) for n in s["order"]]
        return "meta " + self.block([("", k, v if re.fullmatch(r"[A-Za-z0-9_-]+", v) else quoted(v)) for k, v in m.items()], 0) + "\nschema " + self.lines(es, 0) + "\n"

def quoted(v):
    o = '"'
    for c in v:
        o += {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t"}.get(c, c)
    return o + '"'

# ---------------------------------------------------------------- edits
# Each returns what a comparison has to say of it: "major", "minor", "patch"; None if it does not apply.
# "?" is for edits whose effect only documents can tell.

def walk(s):
    """All types: (parent list or dict, key, type, top-level)."""
    def at(holder, key):
        t = holder[key]
        yield holder, key, t
        for i in range(len(t.get("of", []))):
            yield from at(t["of"], i)
        for f in t.get("fields", []):
            yield from at(f, "type")
        for v in t.get("vs", []):
            if v["type"] is not None:
                yield from at(v, "type")
        if t.get("rest"):
            yield from at(t, "rest")
    yield from at(s, "root")
    for n in s["order"]:
        yield from at(s["types"], n)

def strip(t):
    """May be absent, may be @, and the type below the wrappers."""
    absent = unit = False
    while t["t"] in ("optional", "default", "deprecated"):
        absent |= t["t"] != "deprecated"
        unit |= t["t"] == "optional"
        t = t["of"][0]
    return absent, unit, t

def edit(r, s, g):
    objs = [t for _, _, t in walk(s) if t["t"] == "object"]
    enums = [t for _, _, t in walk(s) if t["t"] == "enum" and t["vs"]]
    closed = [t for t in objs if not t["rest"]]
    fields = [(o, f) for o in objs for f in o["fields"]]
    kind = r.choice(["add-optional", "add-optional", "add-required", "add-to-open", "remove-field", "optional-to-required", "required-to-optional", "optional-to-default",
                     "field-type", "any-type", "narrow", "widen", "add-variant", "remove-variant", "variant-payload", "add-type", "remove-type", "doc", "meta", "default-value",
                     "reorder-fields", "reorder-types", "deprecate", "rest", "ref", "members", "rename-field", "wrap", "one-of-drop"])
    def some(xs):
        return r.choice(xs) if xs else None
    if kind in ("add-optional", "add-required"):
        o = some(closed)
        names = [w for w in WORDS + ["fresh", "newer"] if o and w not in [f["name"] for f in o["fields"]]]
        if not o or not names:
            return kind, None
        t = r.choice([{"t": "optional", "of": [g.type(1)]}, g.default(), {"t": "deprecated", "why": "old", "of": [{"t": "optional", "of": [g.type(1)]}]}]) if kind == "add-optional" \
            else r.choice([g.scalar(), {"t": "deprecated", "why": "old", "of": [g.scalar()]}, {"t": "seq", "of": [g.scalar()]}])
        o["fields"].insert(r.randint(0, len(o["fields"])), {"name": r.choice(names), "type": t, "doc": ""})
        return kind, "minor" if kind == "add-optional" else "major"
    if kind == "add-to-open":
        o = some([t for t in objs if t["rest"]])
        if not o:
            return kind, None
        names = [w for w in WORDS if w not in [f["name"] for f in o["fields"]]]
        o["fields"].append({"name": r.choice(names), "type": {"t": "optional", "of": [g.scalar()]}, "doc": ""})
        return kind, "?"
    if kind == "remove-field":
        x = some([(o, f) for o, f in fields if not o["rest"]])
        if not x:
            return kind, None
        x[0]["fields"] = [f for f in x[0]["fields"] if f is not x[1]]
        return kind, "major"
    if kind == "rename-field":
        x = some([(o, f) for o, f in fields if not o["rest"]])
        if not x or x[1]["name"] + "2" in [f["name"] for f in x[0]["fields"]]:
            return kind, None
        x[1]["name"] += "2"
        return kind, "major"
    if kind in ("optional-to-required", "optional-to-default"):
        want = (lambda f: f["type"]["t"] == "optional" and f["type"]["of"][0]["t"] in SCALARS)
        x = some([(o, f) for o, f in fields if want(f)])
        if not x:
            return kind, None
        t = x[1]["type"]["of"][0]
        x[1]["type"] = t if kind == "optional-to-required" else {"t": "default", "v": {"string": "abc", "int": "7", "float": "0.5", "bool": "true"}[t["t"]], "of": [t]}
        return kind, "major"
    if kind == "required-to-optional":
        x = some([(o, f) for o, f in fields if not strip(f["type"])[0] and f["type"]["t"] != "ref"])
        if not x:
            return kind, None
        t = x[1]["type"]
        x[1]["type"] = {"t": "optional", "of": [t]} if t["t"] != "deprecated" else {"t": "deprecated", "why": t["why"], "of": [{"t": "optional", "of": t["of"]}]}
        return kind, "minor"
    if kind in ("field-type", "any-type"):
        x = some([(h, k, t) for h, k, t in walk(s) if t["t"] in SCALARS and not (isinstance(h, dict) and h.get("t") == "default") and not any(t in d["of"] for _, _, d in walk(s) if d["t"] in ("default", "one-of"))])
        if not x:
            return kind, None
        x[0][x[1]] = g.type(1)
        return kind, "?"
    if kind in ("narrow", "widen"):
        x = some([t for _, _, t in walk(s) if t["t"] in ("string", "int", "float") and not any(t is d["of"][0] for _, _, d in walk(s) if d["t"] in ("default", "one-of"))])
        if not x:
            return kind, None
        if kind == "widen":
            if not x["c"]:
                return kind, None
            x["c"] = {}
            return kind, "?"
        x["c"] = {"minLen": 4, "maxLen": 5} if x["t"] == "string" else {"min": 8, "max": 9}
        return kind, "major"
    if kind in ("add-variant", "remove-variant", "variant-payload"):
        e = some(enums)
        if not e:
            return kind, None
        if kind == "add-variant":
            names = [v for v in VARIANTS + ["fresh"] if v not in [x["name"] for x in e["vs"]]]
            e["vs"].append({"name": r.choice(names), "type": r.choice([None, g.scalar()]), "doc": ""})
            return kind, "minor"
        if kind == "remove-variant":
            e["vs"].pop(r.randrange(len(e["vs"])))
            return kind, "major"
        v = r.choice(e["vs"])
        v["type"] = {"t": "object", "fields": [{"name": "must", "type": {"t": "int", "c": {}}, "doc": ""}], "rest": None, "how": ""} if v["type"] is None else r.choice([None, g.type(1)])
        return kind, "?"
    if kind == "add-type":
        names = [n for n in TYPES + ["Fresh"] if n not in s["order"]]
        n = r.choice(names)
        s["types"][n] = g.obj(1)
        s["order"].insert(r.randint(0, len(s["order"])), n)
        return kind, "minor"
    if kind == "remove-type":
        used = {t["name"] for _, _, t in walk(s) if t["t"] == "ref"}
        n = some([n for n in s["order"] if n not in used])
        if not n:
            return kind, None
        s["order"].remove(n)
        del s["types"][n]
        g.names = list(s["order"])
        return kind, "major"
    if kind == "doc":
        x = some(fields)
        if x:
            x[1]["doc"] = r.choice([d for d in ("", "Said otherwise.", "What it is.") if d != x[1]["doc"]])
        else:
            s["docs"]["@"] = s["docs"].get("@", "") + "More."
        return kind, "patch"
    if kind == "meta":
        s["meta"]["version"] += "1"
        return kind, "patch"
    if kind == "default-value":
        x = some([t for _, _, t in walk(s) if t["t"] == "default"])
        if not x:
            return kind, None
        x["v"] = {"string": x["v"] + "d", "int": x["v"] + "3", "float": x["v"] + "5", "bool": "false" if x["v"] == "true" else "true"}[x["of"][0]["t"]]
        return kind, "patch"
    if kind == "reorder-fields":
        o = some([o for o in objs if len(o["fields"]) > 1])
        if not o:
            return kind, None
        o["fields"].append(o["fields"].pop(0))
        return kind, "?"
    if kind == "reorder-types":
        if len(s["order"]) < 2:
            return kind, None
        s["order"].append(s["order"].pop(0))
        return kind, "patch"
    if kind == "deprecate":
        x = some([f for _, f in fields if f["type"]["t"] != "deprecated"])
        if not x:
            return kind, None
        x["type"] = {"t": "deprecated", "why": "no more", "of": [x["type"]]}
        return kind, "?"
    if kind == "rest":
        o = some(objs)
        if not o:
            return kind, None
        o["rest"] = None if o["rest"] else r.choice([g.scalar(), {"t": "any"}])
        return kind, "?"
    if kind == "ref":
        x = some([t for _, _, t in walk(s) if t["t"] == "ref"])
        if not x or len(s["order"]) < 2:
            return kind, None
        x["name"] = r.choice([n for n in s["order"] if n != x["name"]])
        return kind, "?"
    if kind == "members":
        x = some([t for _, _, t in walk(s) if t["t"] in ("union", "tuple")])
        if not x:
            return kind, None
        r.choice([lambda: x["of"].append(g.scalar()), lambda: len(x["of"]) > 1 and x["of"].pop(), lambda: x["of"].reverse()])()
        return kind, "?"
    if kind == "one-of-drop":
        x = some([t for _, _, t in walk(s) if t["t"] == "one-of" and len(t["vals"]) > 1])
        if not x:
            return kind, None
        x["vals"].pop(r.randrange(len(x["vals"])))
        return kind, "major"
    if kind == "wrap":
        x = some([(h, k, t) for h, k, t in walk(s) if t["t"] in SCALARS and not any(t in d["of"] for _, _, d in walk(s) if d["t"] in ("default", "one-of"))])
        if not x:
            return kind, None
        x[0][x[1]] = {"t": r.choice(["seq", "union", "map", "optional"]), "of": [x[2]]}
        return kind, "?"

RANK = {"none": 0, "patch": 1, "minor": 2, "major": 3}

# ---------------------------------------------------------------- documents

class Docs:
    def __init__(self, r, s):
        self.r, self.s = r, s
    def root(self):
        return self.body(self.s["root"], 4)
    def body(self, o, d):
        r = self.r
        es = []
        for f in o["fields"]:
            absent, unit, _ = strip(f["type"])
            x = r.random()
            if absent and (x < 0.35 or d < -6):
                continue
            if unit and x < 0.5:
                es.append(f"{q(f['name'])} @")
                continue
            es.append(f"{q(f['name'])} {self.value(f['type'], d - 1)}")
        if o["rest"] and d > -6:
            for n in r.sample(WORDS + ["fresh", "newer", "host2"], r.randint(0, 3)):
                if n not in [f["name"] for f in o["fields"]]:
                    es.append(f"{q(n)} {self.value(o['rest'], d - 1)}")
        r.shuffle(es)
        return es
    def value(self, t, d):
        r = self.r
        k = t["t"]
        if d < -12:
            raise RecursionError
        if k == "string":
            lo, hi = t["c"].get("minLen", 0), t["c"].get("maxLen", 9)
            return q("".join(r.choice("abcxyz") for _ in range(max(1, r.randint(lo, hi))))) if lo or r.random() < 0.85 else '""'
        if k == "int":
            return str(r.choice([t["c"].get("min", -30), t["c"].get("max", 300), r.randint(t["c"].get("min", -30), t["c"].get("max", 300))]))
        if k == "float":
            lo, hi = t["c"].get("min", -30), t["c"].get("max", 300)
            return str(r.choice([lo, hi, r.randint(lo, hi - 1) + 0.5]))
        if k == "bool":
            return r.choice(["true", "false"])
        if k == "any":
            return r.choice(["word", "1", "{a 1}", "(1 2)", "true", '"a b"'])
        if k == "ref":
            return self.value(self.s["types"][t["name"]], d)
        if k == "one-of":
            return q(r.choice(t["vals"]))
        if k == "optional" and r.random() < 0.3:
            return "@"
        if k in ("optional", "default", "deprecated"):
            return self.value(t["of"][0], d)
        if k == "seq":
            return "(" + " ".join(self.value(t["of"][0], d - 1) for _ in range(r.randint(0, 2) if d > -6 else 0)) + ")"
        if k == "tuple":
            return "(" + " ".join(self.value(x, d - 1) for x in t["of"]) + ")"
        if k == "map":
            return "{" + ", ".join(f"{n} {self.value(t['of'][-1], d - 1)}" for n in r.sample(["k1", "k2", "k3"], r.randint(0, 2) if d > -6 else 0)) + "}"
        if k == "union":
            return self.value(r.choice(t["of"]), d)
        if k == "object":
            return "{" + ", ".join(self.body(t, d)) + "}"
        if k == "enum":
            if not t["vs"]:
                raise RecursionError
            v = r.choice(t["vs"])
            if v["type"] is None:
                return "@" + v["name"]
            x = self.value(v["type"], d - 1)
            return f"@{v['name']}{x}" if x[0] in '{("' else f'@{v["name"]}"{x}"' if x[0] != "@" else "@" + v["name"] if x == "@" else f"@{v['name']}/{x}"

# ---------------------------------------------------------------- the tools

CURL = """#!/bin/sh
{ printf 'curl'; for a in "$@"; do printf ' <%s>' "$a"; done; printf '\\n'; } >> "$FAKE/log"
for a in "$@"; do u=$a; done
case "$u" in
*/download) f="$FAKE/serve/dl-$(printf '%s' "$u" | tr -c 'A-Za-z0-9.+_-' '_')" ;;
*) f="$FAKE/serve/api-$(printf '%s' "$u" | tr -c 'A-Za-z0-9.+_-' '_')" ;;
esac
[ -f "$f" ] || exit 22
cat "$f"
"""
CARGO = """#!/bin/sh
{ printf 'cargo'; for a in "$@"; do printf ' <%s>' "$a"; done; printf ' token=%s\\n' "$CARGO_REGISTRIES_STAGING_TOKEN"; } >> "$FAKE/log"
cp -r . "$FAKE/published" || exit 9
exit $(cat "$FAKE/cargo-exit" 2>/dev/null || echo 0)
"""
API = "https://staging.crates.io/api/v1/crates/"
DL = "https://static.staging.crates.io/crates/"

def san(u):
    return re.sub(r"[^A-Za-z0-9.+_-]", "_", u)

class Place:
    """A scratch directory for one run: working directory, temporary directory, stand-ins and what they serve."""
    def __init__(self, root, i, exe, stubs):
        self.d = os.path.join(root, f"w{i}")
        self.exe, self.stubs = exe, stubs
        for sub in ("work", "tmp", "fake/serve", "home"):
            os.makedirs(os.path.join(self.d, sub))
    def put(self, rel, data):
        with open(os.path.join(self.d, rel), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
    def serve(self, name, latest, crates):
        if latest is not None:
            self.put("fake/serve/api-" + san(API + name), latest if isinstance(latest, bytes) else '{"crate":{"id":"%s","max_version":"%s"},"versions":[]}' % (name, latest))
        for v, files in crates.items():
            b = io.BytesIO()
            with tarfile.open(fileobj=b, mode="w:gz", compresslevel=1) as t:
                for n, data in files.items():
                    i = tarfile.TarInfo(n)
                    i.size = len(data)
                    t.addfile(i, io.BytesIO(data))
            self.put("fake/serve/dl-" + san(f"{DL}{name}/{v}/download"), b.getvalue())
    def run(self, args, stdin=b"", **env):
        e = {"PATH": self.stubs + ":/usr/bin:/bin", "HOME": os.path.join(self.d, "home"), "TMPDIR": os.path.join(self.d, "tmp"), "FAKE": os.path.join(self.d, "fake"), "LANG": "C.UTF-8", "NO_COLOR": "1"}
        e.update(env)
        try:
            p = subprocess.run([self.exe] + args, cwd=os.path.join(self.d, "work"), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    def log(self):
        try:
            with open(os.path.join(self.d, "fake/log"), encoding="utf-8", errors="replace") as f:
                return f.read().splitlines()
        except FileNotFoundError:
            return []
    def files(self, sub):
        out = {}
        top = os.path.join(self.d, sub)
        for base, ds, fs in os.walk(top):
            for n in fs:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, top)] = f.read()
            for n in ds:
                out.setdefault(os.path.relpath(os.path.join(base, n), top) + "/", None)
        return out
    def fresh(self):
        subprocess.run(["find", os.path.join(self.d, "fake"), "-mindepth", "1", "-delete"], check=True)
        os.makedirs(os.path.join(self.d, "fake/serve"))

def verdict(err):
    if "No changes detected" in err:
        return "none"
    m = re.search(r"Suggested bump: (\w+)", err)
    return m[1] if m else None

def bumped(v, how):
    a, b, c = map(int, v.split("."))
    if how == "major":
        return f"{a + 1}.0.0" if a else f"0.{b + 1}.0"
    return f"{a}.{b + 1}.0" if how == "minor" else f"{a}.{b}.{c + 1}"

class Check:
    def __init__(self, ctx, root, exe):
        self.ctx, self.root, self.exe = ctx, root, exe
        self.lock = threading.Lock()
        self.stubs = os.path.join(root, "bin")
        os.makedirs(self.stubs)
        for n, t in (("curl", CURL), ("cargo", CARGO)):
            p = os.path.join(self.stubs, n)
            with open(p, "w") as f:
                f.write(t)
            os.chmod(p, 0o755)
    def fail(self, sig, msg, **rep):
        with self.lock:
            self.ctx.fail(sig, msg, **rep)
    def count(self, k):
        with self.lock:
            self.ctx.count(k)
    def eval(self, key):
        with self.lock:
            self.ctx.eval(key)
    def case(self, i):
        r = random.Random(f"{self.ctx.seed} {self.ctx.prop} {i}")
        place = Place(self.root, i, self.exe, self.stubs)
        try:
            x = i % 10
            if x < 7:
                self.compare(r, place)
            elif x == 7:
                self.publish(r, place)
            elif x == 8:
                self.package(r, place)
            else:
                self.hostile(r, place)
        finally:
            subprocess.run(["rm", "-rf", place.d])
    def pair(self, r):
        """An old schema, a new one, and what the comparison has to say (a set)."""
        g = Gen(r)
        old = g.schema()
        new = copy.deepcopy(old)
        if r.random() < 0.08:
            return old, new, ["layout"], {"none"}
        steps, want, soft = [], "none", False
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            for _ in range(20):
                kind, w = edit(r, new, g)
                if w:
                    break
            else:
                continue
            steps.append(kind)
            if w == "?":
                soft = True
            elif RANK[w] > RANK[want]:
                want = w
        if not steps:
            return old, new, ["layout"], {"none"}
        # several edits may cancel out, or one may cover another
        if len(steps) > 1 or soft:
            return old, new, steps, None
        return old, new, steps, {want}
    def diff(self, r, p, old, new):
        name = r.choice(["my-schema", "x", "a_b-1"])
        latest = r.choice(["1.2.3", "0.1.0", "0.0.7", "12.0.9"])
        base = r.choice([None, "0.9.1", "2.0.0-rc.1"])
        v = base or latest
        p.serve(name, latest, {v: {f"{name}-{v}/schema.styx": old.encode(), f"{name}-{v}/Cargo.toml": b"x"}})
        p.put("work/s.styx", new)
        before = p.files("work")
        rc, out, err = p.run(["diff", "s.styx", "--crate", name] + (["--baseline", base] if base else []))
        rep = dict(old=old, new=new, rc=rc, stdout=out, stderr=err, log=p.log())
        if rc != 0 or out:
            self.fail("diff:status", f"styx diff: exit {rc}, {out[:100]!r} on standard output, {err[:300]!r}", **rep)
            return None, rep
        urls = [f"curl <-sfL> <{API}{name}>"] if not base else []
        urls.append(f"curl <-sfL> <{DL}{name}/{v}/download>")
        if p.log() != urls:
            self.fail("diff:fetch", f"asked {p.log()}, expected {urls}", **rep)
        if p.files("tmp") or p.files("work") != before:
            self.fail("diff:leaves", f"left {sorted(p.files('tmp'))} in the temporary directory, {sorted(p.files('work'))} in the working directory", **rep)
        got = verdict(err)
        if got is None:
            self.fail("diff:verdict", f"no suggestion in {err[:300]!r}", **rep)
        return got, rep
    def compare(self, r, p):
        old, new, steps, want = self.pair(r)
        a = Render().schema(old)
        b = Render(r if r.random() < 0.5 or steps == ["layout"] else None).schema(new)
        got, rep = self.diff(r, p, a, b)
        self.eval(a + b)
        rep["edits"] = steps
        for s in steps:
            self.count("edit " + s)
        if got is None:
            return
        self.count("said " + got)
        if want and got not in want:
            return self.fail(f"verdict:{steps[0]}", f"the change ({', '.join(steps)}) is {'/'.join(want)}, styx diff says {got}", **rep)
        if a == b and got != "none":
            return self.fail("verdict:same", f"the same text, and styx diff says {got}", **rep)
        if got == "none" and Render().schema(old) != Render().schema(new):
            return self.fail("verdict:unseen", f"the change ({', '.join(steps)}) is not seen", **rep)
        # documents decide
        d = Docs(r, old)
        p.put("work/old.styx", a)
        broken = False
        for i in range(3 if got == "major" else 6):
            try:
                es = d.root()
            except RecursionError:
                self.count("deep documents")
                continue
            p.put("work/doc.styx", "\n".join(es) + "\n")
            if p.run(["doc.styx", "--validate", "--schema", "old.styx"])[0] != 0:
                self.count("documents refused by the old schema")
                continue
            self.count("documents")
            rc, _, e = p.run(["doc.styx", "--validate", "--schema", "s.styx"])
            if rc != 0:
                broken = True
                self.count("documents broken")
                if got != "major":
                    return self.fail(f"missed:{steps[0]}", f"the change ({', '.join(steps)}) is called {got}; the document {es} was valid and is no more: {e[:300]!r}", document=es, **rep)
        self.ctx.sample(f"{steps} -> {got}" + (", a document broke" if broken else ""))
    # -- publish
    def publish(self, r, p):
        old, new, steps, want = self.pair(r)
        name = r.choice(["my-schema", "x", "a_b-1", "Styx-Thing"])
        a = Render().schema(old, {"crate": name})
        b = Render(r if r.random() < 0.5 else None).schema(new, {"crate": name})
        latest = r.choice(["1.2.3", "0.1.0", "0.0.7", "12.0.9", "3.4.0"])
        # what a plain comparison says
        p.serve(name, latest, {latest: {f"{name}-{latest}/schema.styx": a.encode()}})
        p.put("work/s.styx", b)
        rc, _, err = p.run(["diff", "s.styx", "--crate", name])
        said = verdict(err)
        p.fresh()
        how = r.choice(["yes", "yes", "yes", "ask-y", "ask-n", "first", "no-token", "no-download", "no-schema", "bad-baseline", "cargo-fails", "prerelease", "bad-version", "no-name", "no-file", "bad-local"])
        if said is None or rc != 0:
            return self.fail("publish:diff", f"styx diff: {rc} {err[:300]!r}", old=a, new=b)
        crates = {latest: {f"{name}-{latest}/schema.styx": a.encode()}}
        stdin, args, env, top = b"", ["publish", "s.styx", "-y"], {"STYX_STAGING_TOKEN": "tok-123"}, latest
        expect = bumped(latest, said) if said != "none" else None
        fails = said == "none"
        if how == "ask-y":
            args.pop()
            stdin = r.choice([b"y\n", b"Y\n", b" y \n"])
        elif how == "ask-n":
            args.pop()
            stdin = r.choice([b"n\n", b"\n", b"", b"no\n", b"maybe\n", b"n\ny\n"])
            expect = None
        elif how == "first":
            top, crates, expect, fails = None, {}, "0.1.0", False
        elif how == "no-token":
            env, expect, fails = {}, None, True
        elif how == "no-download":
            crates, expect, fails = {}, None, True
        elif how == "no-schema":
            crates, expect, fails = {latest: {f"{name}-{latest}/README.md": b"x", "schema.styx": a.encode()}}, None, True
        elif how == "bad-baseline":
            crates, expect, fails = {latest: {f"{name}-{latest}/schema.styx": b"schema {a {\n"}}, None, True
        elif how == "cargo-fails":
            p.put("fake/cargo-exit", "101")
            fails = True
        elif how == "prerelease":
            top = r.choice(["1.0.0-alpha.1", "1.0", "1.2.3.4", "2.0.0-rc"])
            crates, expect, fails = {top: {f"{name}-{top}/schema.styx": a.encode()}}, None, True
        elif how == "bad-version":
            top = r.choice(["1.0.0'; touch pwned; '", "$(touch pwned)", "../../x", "1.0.0/../2", "`touch pwned`"])
            crates, expect, fails = {top: {f"{name}-{top}/schema.styx": a.encode()}}, None, True
        elif how == "no-name":
            b = Render().schema(new)
            p.put("work/s.styx", b)
            expect, fails = None, True
        elif how == "no-file":
            args[1] = "missing.styx"
            expect, fails = None, True
        elif how == "bad-local":
            b = b.rstrip()[:-1]
            p.put("work/s.styx", b)
            expect, fails = None, True
        p.serve(name, top, crates)
        before = p.files("work")
        rc, out, err = p.run(args, stdin, **env)
        log = p.log()
        self.eval(f"{how} {a} {b}")
        self.count("publish " + how)
        rep = dict(old=a, new=b, how=how, rc=rc, stdout=out, stderr=err, log=log, args=args)
        if (rc != 0) != fails:
            return self.fail(f"publish:status:{how}", f"styx {' '.join(args)} ({how}): exit {rc}, expected {'a failure' if fails else 'success'}; {err[-300:]!r}", **rep)
        if p.files("work") != before or p.files("tmp"):
            return self.fail(f"publish:leaves:{how}", f"left {sorted(p.files('tmp'))} in the temporary directory, {sorted(p.files('work'))} in the working directory", **rep)
        ran = [l for l in log if l.startswith("cargo")]
        if expect is None:
            if ran:
                self.fail(f"publish:unasked:{how}", f"published ({ran}) where nothing was to be ({how}, comparison says {said})", **rep)
            return
        if ran != ["cargo <publish> <--registry> <staging> token=tok-123"]:
            return self.fail(f"publish:command:{how}", f"ran {ran}", **rep)
        if "tok-123" in out + err:
            self.fail("publish:token", "the token is in the output", **rep)
        self.crate(p.files("fake/published"), name, expect, b, f"publish:{how}", rep)
        self.count("published")
    def crate(self, files, name, version, schema, what, rep):
        try:
            m = tomllib.loads(files["Cargo.toml"].decode())["package"]
        except Exception as e:
            return self.fail(f"{what}:manifest", f"Cargo.toml: {e!r}", **rep)
        if (m.get("name"), m.get("version")) != (name, version):
            self.fail(f"{what}:version", f"Cargo.toml is for {m.get('name')} {m.get('version')}, expected {name} {version}", **rep)
        if files.get("schema.styx") != schema.encode():
            self.fail(f"{what}:schema", f"schema.styx is {files.get('schema.styx', b'missing')[:200]!r}", **rep)
        if b'include_str!("../schema.styx")' not in files.get("src/lib.rs", b""):
            self.fail(f"{what}:lib", f"src/lib.rs is {files.get('src/lib.rs')!r}", **rep)
        if not what.startswith("package"):
            try:
                c = tomllib.loads(files[".cargo/config.toml"].decode())
                if "staging" not in c["registries"]["staging"]["index"]:
                    raise ValueError(c)
            except Exception as e:
                self.fail(f"{what}:registry", f".cargo/config.toml: {e!r}", **rep)
    # -- package
    def package(self, r, p):
        g = Gen(r)
        b = Render(r).schema(g.schema())
        name, version = r.choice(["my-schema", "x", "a_b-1", "Z9"]), r.choice(["0.1.0", "1.2.3", "2.0.0-rc.1", "1.0.0+build.5"])
        how = r.choice(["plain", "output", "output", "deep", "again", "bad-schema", "no-file", "crlf", "blocked"])
        out_dir = {"plain": None, "output": "out", "deep": "a/b/c"}.get(how, "out")
        if how == "crlf":
            b = "\ufeff" * 0 + b.replace("\n", "\r\n") + "// é ü 😀\n"
        if how == "bad-schema":
            b = b.rstrip()[:-1]
        p.put("work/s.styx", b)
        keep = {"s.styx": b.encode()}
        if how == "again":
            os.makedirs(os.path.join(p.d, "work/out/src"))
            for n, d in (("Cargo.toml", b"old " * 500), ("schema.styx", b"old " * 5000), ("src/mine.rs", b"mine")):
                p.put("work/out/" + n, d)
            keep["out/src/mine.rs"] = b"mine"
        if how == "blocked":
            p.put("work/out", "a file")
            keep["out"] = b"a file"
        args = ["package", "missing.styx" if how == "no-file" else "s.styx", "--name", name, "--version", version] + (["--output", out_dir] if out_dir else [])
        rc, out, err = p.run(args)
        self.eval(f"package {how} {name} {version} {b}")
        self.count("package " + how)
        rep = dict(schema=b, how=how, rc=rc, stdout=out, stderr=err, args=args)
        files = {k: v for k, v in p.files("work").items() if v is not None}
        fails = how in ("bad-schema", "no-file", "blocked")
        if (rc != 0) != fails or p.log():
            return self.fail(f"package:status:{how}", f"styx {' '.join(args)}: exit {rc}, {err[:300]!r}; ran {p.log()}", **rep)
        d = (out_dir or name) + "/"
        mine = {k[len(d):]: v for k, v in files.items() if k.startswith(d) and k not in keep}
        others = {k: v for k, v in files.items() if not k.startswith(d) or k in keep}
        if others != keep or p.files("tmp") or p.files("home"):
            return self.fail(f"package:others:{how}", f"other files: {sorted(others)}, expected {sorted(keep)} as they were", **rep)
        if fails:
            if mine:
                self.fail(f"package:wrote:{how}", f"failed and wrote {sorted(mine)}", **rep)
            return
        if set(mine) != {"Cargo.toml", "README.md", "schema.styx", "src/lib.rs"}:
            self.fail(f"package:files:{how}", f"wrote {sorted(mine)}", **rep)
        self.crate(mine, name, version, b, "package:" + how, rep)
    # -- names that reach out
    def hostile(self, r, p):
        g = Gen(r)
        schema = Render().schema(g.schema())
        bad = r.choice(["x'; touch pwned; '", "../up", "/abs", "a/b", "a\nb", 'a"\nversion = "9', "$(touch pwned)", "`touch pwned`", "", "a b", "9a", "-x", ".", "..", "a\\b", "é", "a;b", "a|b", "a&b", "a\x00b"[:1] + "%2e", "a?b", "a#b"])
        badv = r.choice(["1'; touch pwned; '", "../up", "1/2", '1.0.0"\nname = "evil', "$(touch pwned)", "", "1.0 0", "v1", "1;2", "é", "1.0.0\n"])
        how = r.choice(["package-name", "package-version", "diff-name", "diff-version", "publish-name"])
        env = {}
        if how == "package-name":
            args = ["package", "s.styx", "--name", bad, "--version", "1.0.0"] + r.choice([[], ["--output", "out"]])
        elif how == "package-version":
            args = ["package", "s.styx", "--name", "good", "--version", badv, "--output", "out"]
        elif how == "diff-name":
            args = ["diff", "s.styx", "--crate", bad] + r.choice([[], ["--baseline", "1.0.0"]])
        elif how == "diff-version":
            args = ["diff", "s.styx", "--crate", "good", "--baseline", badv]
        else:
            schema = Render().schema(g.schema(), {"crate": bad})
            args, env = ["publish", "s.styx", "-y"], {"STYX_STAGING_TOKEN": "tok-123"}
        p.put("work/s.styx", schema)
        before = {d: p.files(d) for d in ("work", "tmp", "home")}
        rc, out, err = p.run(args, **env)
        self.eval(f"{how} {args} {bad}")
        self.count("hostile " + how)
        rep = dict(schema=schema, rc=rc, stdout=out, stderr=err, args=args, log=p.log())
        if rc == 0 or not isinstance(rc, int) or rc < 0 or rc == 101:
            self.fail(f"hostile:status:{how}", f"styx {args}: exit {rc}, {err[:300]!r}", **rep)
        elif not err:
            self.fail(f"hostile:silent:{how}", f"styx {args}: no message", **rep)
        if p.log():
            self.fail(f"hostile:ran:{how}", f"styx {args} (name {bad!r}) ran {p.log()}", **rep)
        after = {d: p.files(d) for d in ("work", "tmp", "home")}
        if after != before or sorted(os.listdir(p.d)) != ["fake", "home", "tmp", "work"]:
            self.fail(f"hostile:wrote:{how}", f"styx {args} left {[sorted(set(after[d]) - set(before[d])) for d in after]} {sorted(os.listdir(p.d))}", **rep)

def run(ctx):
    exe = os.path.join(workspace(), "styx")
    ctx.rule = "one run of styx diff, publish or package; distinct by schema texts and arguments"
    ctx.must = ["said none", "said patch", "said minor", "said major", "documents", "documents broken", "published", "package output", "hostile diff-name", "hostile publish-name"]
    ctx.assumptions = ["curl and cargo are stand-ins found first on PATH; sh, tar and gzip are the real ones", "the validator (checked by C16) decides whether a document is valid"]
    n = 24000 if ctx.thorough else 1800
    budget = 780 if ctx.thorough else 75
    with Scratch("pub") as root:
        c = Check(ctx, root, exe)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            def one(i):
                if ctx.elapsed() - t0 > budget or len(ctx.violations) > 20:
                    return
                c.case(i)
            t0 = ctx.elapsed()
            for f in [ex.submit(one, i) for i in range(n)]:
                f.result()
    d, x = ctx.counters.get("documents", 0), ctx.counters.get("documents refused by the old schema", 0)
    if x > d:
        raise Undecided(f"only {d} of {d + x} documents made for a schema were valid")
