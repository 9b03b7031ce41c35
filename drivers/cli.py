"""C19-C21: the command line, run as a user runs it, in scratch directories that are compared before and after.

C19 and C20 share the workload: random documents (known to be valid, faulty, conforming or not) x options x ways of
naming files x failing reads and writes. A model gives the exit codes that may be seen, what must be on standard
output and what each file must hold; C19 reports statuses, streams and requested outputs, C20 reports files.
C21 reads the JSON and S-expression output with readers of its own and compares with the document."""
import concurrent.futures, errno, json, os, random, re, shutil, stat, subprocess, threading, time
from . import core, blob
from .common import *

SCHEMA_IDS = {"alpha": "schema {@ @object{a @int}}", "beta": "schema {@ @object{a @bool}}"}
def embedded(i):
    return f"meta {{id {i}, version 1}}\n{SCHEMA_IDS[i]}\n"

def snapshot(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(base, n)
            r = os.path.relpath(p, d)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[r] = ("dir", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[r] = ("file", f.read(), stat.S_IMODE(st.st_mode))
            else:
                out[r] = ("other",)
    return out

class Box:
    """One scratch directory with files in it."""
    def __init__(self, root, name):
        self.d = os.path.join(root, name)
        os.makedirs(self.d)
        self.made = []
    def p(self, rel):
        return os.path.join(self.d, rel)
    def put(self, rel, data, mode=None):
        p = self.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogatepass"))
        if mode is not None:
            os.chmod(p, mode)
    def link(self, rel, to):
        os.symlink(to, self.p(rel))
    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

class Any:
    """Whatever is there."""
ANY = Any()

class Runner:
    def __init__(self, ctx, root, exe, shim):
        self.ctx, self.root, self.exe, self.shim = ctx, root, exe, shim
        self.lock = threading.Lock()
        self.nobody = self.can_be_nobody()
    def can_be_nobody(self):
        try:
            p = subprocess.run([self.exe, "--version"], user=65534, group=65534, extra_groups=[], cwd="/", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
            return p.returncode == 0
        except Exception:
            return False
    def env(self, home, **kw):
        e = {"PATH": os.path.join(home, "bin") + ":/usr/bin:/bin", "HOME": home, "XDG_CACHE_HOME": os.path.join(home, "cache"), "LANG": "C.UTF-8", "NO_COLOR": "1"}
        e.update(kw)
        return e
    def run(self, box, args, stdin=None, stdout=subprocess.PIPE, wrap=(), nobody=False, home=None, timeout=60, **kw):
        home = home or os.path.join(self.root, "home")
        cmd = list(wrap) + [self.exe] + list(args)
        who = dict(user=65534, group=65534, extra_groups=[]) if nobody else {}
        try:
            p = subprocess.run(cmd, cwd=box.d, input=stdin if stdin is not None else b"", stdout=stdout, stderr=subprocess.PIPE, timeout=timeout, env=self.env(home, **kw), **who)
        except subprocess.TimeoutExpired:
            return "timeout", b"", b""
        return p.returncode, p.stdout or b"", p.stderr or b""
    def fail(self, prop, sig, msg, **rep):
        if self.ctx.prop in prop:
            with self.lock:
                self.ctx.fail(sig, msg, **rep)
    def count(self, k):
        with self.lock:
            self.ctx.count(k)

def show(args):
    return "styx " + " ".join(os.fsdecode(a) if isinstance(a, bytes) else a for a in args)

def describe(v):
    if v is None:
        return "nothing"
    if v[0] == "file":
        return f"file {v[1][:160]!r} mode {v[2]:o}"
    return str(v)

def judge(R, what, box, before, args, rc, out, err, exp, files, stdout_ok=True, rep=None):
    """exp: exit codes that may be seen. files: what a success leaves, {path: bytes | callable | ANY}. stdout: exp_out."""
    exp_rc, exp_out = exp
    rep = dict(rep or {}, args=[os.fsdecode(a) if isinstance(a, bytes) else a for a in args], kind=what, rc=rc,
               files={k: describe(v) for k, v in before.items()}, stdout=out[:600].decode("utf-8", "replace"), stderr=err[:600].decode("utf-8", "replace"))
    after = snapshot(box.d)
    with R.lock:
        R.ctx.eval(f"{what} {rc} {sorted(args, key=str)!r} {hash(tuple(sorted((k, v[:2]) for k, v in before.items())))}")
        R.ctx.count(f"{what}")
        R.ctx.count(f"exit {rc}")
    R.ctx.sample(f"{show(args)} [{what}] -> {rc}")
    if rc not in exp_rc:
        both = {"C19", "C20"} if what.startswith("same-file") else {"C19"}
        if 0 not in exp_rc and after != before:
            k = sorted(x for x in set(after) | set(before) if after.get(x) != before.get(x))[0]
            return R.fail({"C19", "C20"}, f"damage:{what}", f"{show(args)} in {what}: exit {rc}, expected {sorted(exp_rc)}; {k} was {describe(before.get(k))} and is {describe(after.get(k))}", **rep)
        return R.fail(both, f"status:{what}", f"{show(args)} in {what}: exit {rc}, expected {sorted(exp_rc)}; stderr {err[:300]!r}", **rep)
    if rc == 0:
        if stdout_ok and exp_out is not ANY:
            m = exp_out(out) if callable(exp_out) else (None if out == exp_out else f"standard output is {out[:300]!r}, expected {exp_out[:300]!r}")
            if m:
                return R.fail({"C19"}, f"stdout:{what}", f"{show(args)}: {m}", **rep)
        want = dict(before)
        loose = {}
        for k, v in files.items():
            if isinstance(v, tuple):
                want[k] = v
            elif v is ANY or callable(v):
                loose[k] = v
                want.pop(k, None)
            else:
                want[k] = ("file", v, before[k][2] if k in before and before[k][0] == "file" else after.get(k, (0, 0, 0o644))[2] if after.get(k, ("",))[0] == "file" else 0o644)
        have = dict(after)
        for k, v in loose.items():
            x = have.pop(k, None)
            m = None
            if x is None or x[0] != "file":
                m = f"{k} was not written"
            elif v is not ANY:
                m = v(x[1])
            if m:
                return R.fail({"C19", "C20"}, f"output:{what}", f"{show(args)}: {m}", **rep)
        if have != want:
            k = sorted(x for x in set(have) | set(want) if have.get(x) != want.get(x))[0]
            return R.fail({"C19", "C20"} if k in files else {"C20"}, f"files:{what}", f"{show(args)} succeeded: {k} is {describe(have.get(k))}, expected {describe(want.get(k))}", **rep)
    else:
        if out and stdout_ok:
            R.fail({"C19"}, f"stdout-on-failure:{what}", f"{show(args)} failed ({rc}) with {out[:200]!r} on standard output", **rep)
        if not err:
            R.fail({"C19"}, f"silent:{what}", f"{show(args)} failed ({rc}) and wrote nothing to standard error", **rep)
        if after != before:
            k = sorted(x for x in set(after) | set(before) if after.get(x) != before.get(x))[0]
            R.fail({"C19", "C20"} if k in files else {"C20"}, f"damage:{what}", f"{show(args)} failed ({rc}): {k} was {describe(before.get(k))} and is {describe(after.get(k))}", **rep)

NAMES = ["in.styx", "./in.styx", "./noext", "sp ace.styx", "ünï😀.styx", "a.b.c", "./-dash.styx", "sub/in.styx", "sub/../in.styx", "sub/deep/x.styx", ".hidden", "UP.STYX"]

class Cases:
    def __init__(self, R, docs, schemas):
        self.R, self.docs, self.schemas = R, docs, schemas
    # -- building blocks
    def document(self, r):
        d = r.choice(self.docs)
        return d
    def input(self, r, box, data, stdin_ok=True):
        """Put the document somewhere; returns (argument, relative path or None, stdin)."""
        if stdin_ok and r.random() < 0.15:
            return "-", None, data
        name = r.choice(NAMES)
        rel = os.path.normpath(name)
        if name.startswith("sub/.."):
            os.makedirs(box.p("sub"), exist_ok=True)
        if r.random() < 0.12:
            box.put("real/" + os.path.basename(rel) + ".data", data, r.choice([None, 0o600, 0o640]))
            os.makedirs(os.path.dirname(box.p(rel)), exist_ok=True)
            os.symlink(os.path.relpath(box.p("real/" + os.path.basename(rel) + ".data"), os.path.dirname(box.p(rel))), box.p(rel))
            return self.spell(r, box, name), "real/" + os.path.basename(rel) + ".data", None
        box.put(rel, data, r.choice([None, None, 0o600, 0o640, 0o755, 0o444]))
        return self.spell(r, box, name), rel, None
    def spell(self, r, box, name):
        if r.random() < 0.15:
            return box.p(os.path.normpath(name))
        return name
    def bystanders(self, r, box, avoid=()):
        for n in r.sample(["other.styx", "notes.txt", "sub2/keep.styx", "in.styx.bak", "in.styx.tmp", "Makefile"], r.randint(0, 3)):
            if n not in avoid:
                box.put(n, r.choice(["keep me 1\n", "{", "", "x\r\n", b"\xff\xfe"]))
    def output(self, r, box):
        """A place to write to: (argument, relative path or None for stdout, ok?, what)."""
        k = r.random()
        if k < 0.25:
            return "-", None, True, "stdout"
        if k < 0.5:
            n = r.choice(["out.styx", "./out", "new dir.styx", "ö.styx", "out.json"])
            return self.spell(r, box, n), os.path.normpath(n), True, "new"
        if k < 0.75:
            n = r.choice(["old.styx", "./old", "dir/old.styx"])
            box.put(os.path.normpath(n), r.choice(["old content\n", "", "x" * 5000, "{ broken"]), r.choice([None, 0o600, 0o666]))
            return self.spell(r, box, n), os.path.normpath(n), True, "existing"
        if k < 0.82:
            box.put("t/target", "old target\n")
            box.link("ln.styx", "t/target")
            return "./ln.styx", "t/target", True, "through link"
        if k < 0.87:
            box.link("dangling.styx", "not-yet")
            return "./dangling.styx", "not-yet", True, "dangling link"
        if k < 0.94:
            return r.choice(["missing/dir/out.styx", "./no/such"]), None, False, "no directory"
        os.makedirs(box.p("adir"), exist_ok=True)
        return r.choice(["./adir", "adir/"]), None, False, "directory"
    # -- kinds of case; each returns nothing and judges itself
    def go(self, i):
        r = random.Random(f"{self.R.ctx.seed}/{i}")
        box = Box(self.R.root, f"c{i}")
        try:
            kinds = [(self.convert, 30), (self.inplace, 10), (self.validate, 14), (self.samefile, 7), (self.unreadable, 6), (self.usage, 6), (self.dump, 9), (self.multi, 6),
                     (self.fulldev, 4), (self.faults, 6 if self.R.ctx.prop == "C19" else 12), (self.toolarge, 3), (self.nobody, 3), (self.embedded, 4)]
            x = r.random() * sum(w for _, w in kinds)
            for f, w in kinds:
                x -= w
                if x <= 0:
                    break
            f(r, box, i)
        finally:
            box.close()
    def expectation(self, d, dest_json):
        if not d["ok"]:
            return {1}, None
        return {0}, None
    def result(self, d, js, compact=False):
        """What the converted document must be."""
        if js:
            want = d.get("json")
            def f(b):
                try:
                    j = json.loads(b)
                except ValueError as e:
                    return f"not JSON ({e}): {b[:200]!r}"
                if want is not None and j != want:
                    return f"the JSON is {b[:300]!r}, expected {json.dumps(want)[:300]}"
            return f
        if compact:
            def g(b):
                rc, out, err = self.R.run(self.anybox, ["-", "--json-out", "-"], stdin=b)
                if rc != 0:
                    return f"compact output does not parse: {b[:300]!r}: {err[:200]!r}"
                if d.get("json") is not None and json.loads(out) != d["json"]:
                    return f"compact output {b[:300]!r} is not the document"
            return g
        return d["fmt"].encode() if d["ok"] else b""
    def convert(self, r, box, i):
        d = self.document(r)
        data = d["t"].encode()
        self.bystanders(r, box)
        arg, rel, stdin = self.input(r, box, data)
        args = [arg]
        js = r.random() < 0.4
        compact = not js and r.random() < 0.15
        to = None
        what = "format"
        okout = True
        if js or r.random() < 0.6:
            oarg, to, okout, owhat = self.output(r, box)
            args += ["--json-out" if js else r.choice(["-o", "--output"]), oarg]
            what = ("json " if js else "format ") + owhat
        if compact:
            args.append("--compact")
            what += " compact"
        if rel is None:
            what += " stdin"
        if r.random() < 0.2 and len(args) > 1 and arg != "-":
            pass
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, stdin=stdin)
        exp_rc = {1} if not d["ok"] else ({0} if okout else {3})
        if not d["ok"]:
            what += " invalid"
            if not okout:
                exp_rc = {1, 3}
        res = self.result(d, js, compact) if d["ok"] else b""
        files = {}
        exp_out = b""
        if to is not None:
            files[to] = res
        elif okout:
            exp_out = res
        judge(self.R, what, box, before, args, rc, out, err, (exp_rc, exp_out), files, rep={"text": d["t"]})
    def inplace(self, r, box, i):
        d = self.document(r)
        self.bystanders(r, box)
        arg, rel, stdin = self.input(r, box, d["t"].encode(), stdin_ok=r.random() < 0.3)
        args = [arg, "--in-place"]
        what = "in-place" + ("" if d["ok"] else " invalid") + (" stdin" if rel is None else "")
        twin = None
        if rel and r.random() < 0.15:
            os.link(box.p(rel), box.p("twin.styx"))
            what += " hard link"
            twin = "twin.styx"
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, stdin=stdin)
        files = {}
        exp = {1} if rel is None or not d["ok"] else {0}
        if rel and d["ok"]:
            files[rel] = d["fmt"].encode()
            if twin:
                files[twin] = d["fmt"].encode()
        judge(self.R, what, box, before, args, rc, out, err, (exp, b""), files, rep={"text": d["t"]})
    def validate(self, r, box, i):
        s = r.choice(self.schemas)
        if not s["docs"]:
            return
        d = r.choice(s["docs"])
        text, fmt, js = d["t"], d["fmt"], None
        what = "validate"
        mode = r.choice(["option", "declared", "declared", "none", "missing", "broken", "url", "noflag", "binary"])
        if mode in ("declared", "missing", "broken") and "decl" not in d:
            mode = "option"
        args_tail = ["--validate"]
        exp = {"yes": {0}, "no": {2}, "open": {0, 2}}[d["want"]]
        stext = s["schema"]
        if mode in ("declared", "missing", "broken"):
            text, fmt = d["decl"], d["declfmt"]
        data = text.encode()
        self.bystanders(r, box)
        arg, rel, stdin = self.input(r, box, data, stdin_ok=mode in ("option", "none"))
        if rel and rel.startswith("real/") and mode in ("declared", "missing", "broken"):
            return
        base = os.path.dirname(rel) if rel else ""
        if mode == "option":
            n = r.choice(["schema.styx", "./s", "sub/sch ema.styx"])
            box.put(os.path.normpath(n), stext)
            args_tail += ["--schema", n]
            if "decl" in d and r.random() < 0.3 and rel:
                # the option wins over the declaration
                text, fmt = d["decl"], d["declfmt"]
                box.put(rel, text)
        elif mode == "declared":
            q = os.path.normpath(os.path.join(base, d["path"]))
            if q.startswith(".."):
                return
            box.put(q, stext)
        elif mode == "missing":
            exp = {3}
        elif mode == "broken":
            q = os.path.normpath(os.path.join(base, d["path"]))
            if q.startswith(".."):
                return
            box.put(q, r.choice(["schema {", "not a schema", "schema 3", "meta {id x}\nschema {@ @object{a }", "", "schema {@ @object{a @seq(}}"]))
            exp = {1}
        elif mode == "none":
            exp = {1, 2}
        elif mode == "url":
            text = "@schema " + r.choice(["https://example.com/s.styx", "http://x.y/z"]) + "\na 1\n"
            fmt = None
            if rel:
                box.put(rel, text)
            exp = {1, 3}
        elif mode == "noflag":
            box.put("schema.styx", stext)
            args_tail = ["--schema", "schema.styx"]
            exp = {1}
        elif mode == "binary":
            if not rel:
                return
            box.put(rel, "@schema {id alpha, cli no-such-binary-here}\na 1\n")
            exp = {1, 2, 3}
        what = "validate " + mode
        files, exp_out = {}, b""
        k = r.random()
        if k < 0.4 or mode == "noflag":
            pass
        elif k < 0.6 and fmt is not None:
            args_tail += ["-o", "-"]
            exp_out = fmt.encode()
            what += " to stdout"
        elif k < 0.75 and fmt is not None:
            if r.random() < 0.5:
                box.put("out.styx", "old\n")
            args_tail += ["-o", "out.styx"]
            files["out.styx"] = fmt.encode()
            what += " to file"
        elif k < 0.88 and fmt is not None and rel:
            args_tail += ["--in-place"]
            files[rel] = fmt.encode()
            what += " in place"
        else:
            args_tail += ["--json-out", "out.json"]
            files["out.json"] = lambda b: None if json_ok(b) else f"not JSON: {b[:200]!r}"
            what += " to json"
        before = snapshot(box.d)
        head = [arg]
        args = head + args_tail
        rc, out, err = self.R.run(box, args, stdin=stdin)
        self.R.count("conforming" if exp == {0} else "violating" if exp == {2} else "no verdict")
        judge(self.R, what, box, before, args, rc, out, err, (exp, exp_out), files, rep={"text": text, "schema": stext, "want": d["want"]})
    def samefile(self, r, box, i):
        d = self.document(r)
        name = r.choice(["in.styx", "sub/in.styx", "./noext"])
        rel = os.path.normpath(name)
        box.put(rel, d["t"])
        how = r.choice(["same", "dot", "abs", "symlink", "hardlink", "dirlink", "inlink", "parent"])
        arg, out_arg = name, name
        if how == "dot":
            out_arg = "././" + rel
        elif how == "abs":
            out_arg = box.p(rel)
        elif how == "symlink":
            box.link("l.styx", rel)
            out_arg = "l.styx"
        elif how == "inlink":
            box.link("l.styx", rel)
            arg = "l.styx"
        elif how == "hardlink":
            os.link(box.p(rel), box.p("h.styx"))
            out_arg = "./h.styx"
        elif how == "dirlink":
            box.link("dl", ".")
            out_arg = "dl/" + rel
        elif how == "parent":
            out_arg = "../" + os.path.basename(box.d) + "/" + rel
        opt = r.choice(["-o", "--output", "--json-out"])
        args = [arg, opt, out_arg]
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args)
        judge(self.R, f"same-file {how} {opt}", box, before, args, rc, out, err, ({1}, b""), {}, rep={"text": d["t"]})
    def unreadable(self, r, box, i):
        d = self.document(r)
        k = r.choice(["missing", "directory", "bytes", "bytes stdin", "loop"])
        stdin = None
        arg = "./in.styx"
        b = d["t"].encode()
        at = r.randint(0, len(b))
        bad = b[:at] + r.choice([b"\xff", b"\xc3\x28", b"\xed\xa0\x80", b"\x80"]) + b[at:]
        try:
            bad.decode("utf-8")
            bad = b"\xff" + bad
        except UnicodeDecodeError:
            pass
        if k == "directory":
            os.makedirs(box.p("in.styx"))
        elif k == "bytes":
            box.put("in.styx", bad)
        elif k == "bytes stdin":
            arg, stdin = "-", bad
        elif k == "loop":
            box.link("in.styx", "in.styx")
        self.bystanders(r, box)
        tail = r.choice([[], ["-o", "out.styx"], ["--json-out", "out.json"], ["--in-place"], ["-o", "-"], ["--validate"], ["-o", "old.styx"]])
        if arg == "-" and tail == ["--in-place"]:
            tail = []
        box.put("old.styx", "old 1\n")
        sub = r.random() < 0.3
        args = ["tree", arg] if sub else [arg] + tail
        if sub:
            args = [r.choice(["tree", "cst", "tokens", "lexemes", "events"]), arg]
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, stdin=stdin)
        judge(self.R, "unreadable " + k, box, before, args, rc, out, err, ({3}, b""), {"out.styx": ANY, "out.json": ANY, "in.styx": ANY, "old.styx": ANY} if tail else {}, rep={"input": repr(bad[:500])})
    def usage(self, r, box, i):
        d = self.document(r)
        box.put("in.styx", d["t"])
        box.put("other.styx", "a 1\n")
        args = r.choice([
            ["in.styx", "--no-such-option"], ["in.styx", "other.styx"], ["in.styx", "-o"], ["in.styx", "--json-out"], ["in.styx", "--schema", "other.styx"],
            ["in.styx", "-o", "x.styx", "--json-out", "y.json"], ["in.styx", "-o", "x.styx", "--in-place"], ["in.styx", "--json-out", "y.json", "--in-place"],
            ["-", "--in-place"], ["nonsense"], ["tree"], ["tree", "--format", "xml", "in.styx"], ["completions", "tcsh"], ["gen", "cobol", "in.styx"],
            ["package", "in.styx"], ["frmt", "in.styx"], ["tree", "in.styx", "other.styx"], ["in.styx", "-x"], [b"in.styx", b"-o", b"\xff.styx"], [b"\xff\xfe.styx"],
            ["in.styx", "--in-place", "--no-such-option"], ["cst"], ["extract"]])
        exp = {1}
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, stdin=d["t"].encode())
        judge(self.R, "usage", box, before, args, rc, out, err, (exp, ANY), {}, rep={"text": d["t"]})
    def dump(self, r, box, i):
        d = self.document(r)
        arg, rel, stdin = self.input(r, box, d["t"].encode())
        self.bystanders(r, box)
        k = r.choice(["tree", "tree debug", "tree sexp", "cst", "tokens", "lexemes", "events", "version", "skill", "bash", "zsh", "fish", "help", "cache"])
        exp, exp_out, files = {0}, ANY, {}
        some = lambda b: None if b.strip() else "nothing on standard output"
        if k in ("tree", "tree debug"):
            args = ["tree"] + (["--format", "debug"] if k == "tree debug" else []) + [arg]
            exp = {0} if d["ok"] else {1}
            exp_out = some
        elif k == "tree sexp":
            args = r.choice([["tree", "--format", "sexp", arg], ["tree", arg, "--format", "sexp"]])
            exp_out = lambda b: None if (b"\n(document " in b) == d["ok"] and (b"\n(error " in b) != d["ok"] else f"the document is {'valid' if d['ok'] else 'invalid'}: {b[:200]!r}"
        elif k in ("cst", "tokens", "lexemes", "events"):
            args = [k, arg]
            exp_out = some if d["t"] else ANY
        elif k == "version":
            args = [r.choice(["--version", "-V"])]
            exp_out = lambda b: None if re.match(rb"styx \d", b) else f"{b!r}"
        elif k == "help":
            args = r.choice([[], ["--help"], ["-h"]])
        elif k == "skill":
            args, exp_out = ["skill"], some
        elif k == "cache":
            args, exp_out = ["cache"], some
        else:
            args, exp_out = ["completions", k], some
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, stdin=stdin)
        judge(self.R, "show " + k, box, before, args, rc, out, err, (exp, exp_out), files, rep={"text": d["t"]})
    def multi(self, r, box, i):
        """package and gen: several files of a named directory."""
        s = r.choice(self.schemas)
        text = s["schema"]
        self.bystanders(r, box)
        good = r.random() < 0.6
        kind = r.choice(["package", "gen"])
        src = r.choice(["schema.styx", "s/my-schema.styx", "./thing"])
        state = "good"
        if not good:
            state = r.choice(["syntax", "missing", "bytes", "not a schema"])
            if state == "syntax":
                text = r.choice(["schema {", "a \"", "{ a }}", "schema {@ @object{a (}}"])
            elif state == "not a schema":
                text = r.choice(["a 1\n", "schema 3", "meta {id x, version 1}\n"])
        if state == "bytes":
            box.put(os.path.normpath(src), b"\xff\xfe")
        elif state != "missing":
            box.put(os.path.normpath(src), text)
        out = r.choice([None, "out", "./a/b", "existing"])
        if out == "existing":
            box.put("existing/keep.txt", "k")
            box.put("existing/Cargo.toml", "old\n")
        if kind == "package":
            args = ["package", src, "--name", "my-pkg", "--version", "1.2.3"] + (["--output", out] if out else [])
            od = os.path.normpath(out or "my-pkg")
            names = ["Cargo.toml", "src/lib.rs", "README.md", "schema.styx"]
        else:
            args = ["gen", r.choice(["go", "GO"]), src] + (["--output", out] if out else []) + (["--package", "pkg"] if r.random() < 0.5 else [])
            od = os.path.normpath(out or ".")
            names = ["types.go", "validation.go", "parse.go"]
            if r.random() < 0.3:
                for n in names:
                    box.put(os.path.join(od, n), "// old\n")
        before = snapshot(box.d)
        rc, o, err = self.R.run(box, args)
        exp = {0} if state == "good" else {3} if state in ("missing", "bytes") else {1}
        if state == "not a schema" and kind == "package":
            exp = {0}  # any document can be packaged
        if kind == "gen" and state == "good":
            exp = {0, 1, 2, 3}  # what can be generated is C33's business
        files = {}
        if rc == 0:
            for n in names:
                files[os.path.normpath(os.path.join(od, n))] = ANY
            if kind == "package":
                files[os.path.join(od, "schema.styx")] = text.encode()
            p = od
            while p not in ("", "."):
                if p not in before:
                    files[p] = ("dir", stat.S_IMODE(os.lstat(box.p(p)).st_mode)) if os.path.isdir(box.p(p)) else ("dir", 0)
                p = os.path.dirname(p)
            if kind == "package" and os.path.join(od, "src") not in before:
                files[os.path.join(od, "src")] = ("dir", stat.S_IMODE(os.lstat(box.p(os.path.join(od, "src"))).st_mode)) if os.path.isdir(box.p(os.path.join(od, "src"))) else ("dir", 0)
        judge(self.R, f"{kind} {state}", box, before, args, rc, o, err, (exp, b""), files, rep={"schema": text})
    def fulldev(self, r, box, i):
        """Standard output that cannot be written."""
        d = self.document(r)
        arg, rel, stdin = self.input(r, box, d["t"].encode())
        args = r.choice([[arg], [arg, "-o", "-"], [arg, "--json-out", "-"], ["tree", arg], ["tree", "--format", "sexp", arg], ["cst", arg], ["events", arg], ["tokens", arg], ["skill"], ["completions", "bash"], ["--version"]])
        before = snapshot(box.d)
        rc0, out0, err0 = self.R.run(box, args, stdin=stdin)
        how = r.choice(["full", "closed"])
        if how == "full":
            with open("/dev/full", "wb") as f:
                rc, out, err = self.R.run(box, args, stdin=stdin, stdout=f)
        else:
            a, b = os.pipe()
            os.close(a)
            try:
                rc, out, err = self.R.run(box, args, stdin=stdin, stdout=b)
            finally:
                os.close(b)
        exp = {3} if rc0 == 0 and out0 else {rc0}
        if how == "closed":
            exp = exp | {-13}
        judge(self.R, f"stdout {how}", box, before, args, rc, out, err or (b"-" if rc == -13 else b""), (exp, ANY), {}, rep={"text": d["t"]})
    def toolarge(self, r, box, i):
        """A limit on file size stops the write part-way."""
        d = self.document(r)
        if not d["ok"] or len(d["fmt"].encode()) < 8:
            return
        arg, rel, stdin = self.input(r, box, d["t"].encode(), stdin_ok=False)
        k = r.choice(["in-place", "-o new", "-o old", "json"])
        full = d["fmt"].encode()
        args = [arg] + {"in-place": ["--in-place"], "-o new": ["-o", "out.styx"], "-o old": ["-o", "old.styx"], "json": ["--json-out", "old.styx"]}[k]
        box.put("old.styx", "old 1\n")
        lim = r.randint(1, max(1, (len(full) if k != "json" else 6) - 1))
        before = snapshot(box.d)
        wrap = ["prlimit", f"--fsize={lim}", "sh", "-c", 'trap "" XFSZ; exec "$@"', "_"]
        rc, out, err = self.R.run(box, args, wrap=wrap)
        exp = {3} if k != "json" else {0, 3}
        judge(self.R, "file size limit " + k, box, before, args, rc, out, err, (exp, b""), {"out.styx": ANY} if k == "-o new" else {"old.styx": ANY} if k != "in-place" else {}, rep={"text": d["t"], "limit": lim})
    def nobody(self, r, box, i):
        """A user who may not write."""
        if not self.R.nobody:
            return
        d = self.document(r)
        if not d["ok"]:
            return
        box.put("in.styx", d["t"], 0o644)
        box.put("old.styx", "old 1\n", 0o644)
        box.put("mine.styx", d["t"], 0o600)
        os.chown(box.p("mine.styx"), 65534, 65534)
        box.put("secret.styx", "a 1\n", 0o600)
        k = r.choice(["in-place", "out", "old", "secret", "mine", "json"])
        args = {"in-place": ["in.styx", "--in-place"], "out": ["in.styx", "-o", "new.styx"], "old": ["in.styx", "-o", "old.styx"], "secret": ["secret.styx"], "mine": ["mine.styx", "--in-place"],
                "json": ["in.styx", "--json-out", "old.styx"]}[k]
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, nobody=True)
        exp, files = {3}, {"old.styx": ANY, "new.styx": ANY, "in.styx": ANY}
        if k == "mine":  # the file may be written, its directory may not
            exp, files = {0}, {"mine.styx": d["fmt"].encode()}
            st = os.stat(box.p("mine.styx"))
            if st.st_uid != 65534:
                self.R.fail({"C20"}, "owner", f"{show(args)}: the owner changed to {st.st_uid}", text=d["t"])
        judge(self.R, "no permission " + k, box, before, args, rc, out, err, (exp, b""), files, rep={"text": d["t"]})
    def embedded(self, r, box, i):
        """Schemas out of a program found on PATH."""
        home = box.p("home")
        ids = r.choice([["alpha"], ["beta"], ["alpha", "beta"], ["beta", "alpha"], []])
        img = os.urandom(0) + bytes(r.randrange(256) for _ in range(r.randint(0, 200)))
        for x in ids:
            img += blob.blob(embedded(x)) + bytes(r.randrange(256) for _ in range(r.randint(0, 40)))
        box.put("home/bin/vtool", b"#!/bin/sh\nexit 9\n" + img, 0o755)
        if r.random() < 0.3:
            args = ["extract", "home/bin/vtool"]
            before = snapshot(box.d)
            rc, out, err = self.R.run(box, args, home=home)
            judge(self.R, "extract", box, before, args, rc, out, err, ({0} if ids else {1, 3}, "".join(embedded(x) for x in ids).encode()), {})
            return
        want = r.choice([None, "alpha", "beta", "gamma"])
        val = r.choice(["1", "true", "x"])
        text = f"@schema {{{'id ' + want + ', ' if want else ''}cli vtool}}\na {val}\n"
        box.put("in.styx", text)
        pick = (ids[0] if ids else None) if want is None else want if want in ids else None
        ok = pick is not None and val == {"alpha": "1", "beta": "true"}[pick]
        exp = {0} if ok else {1, 2, 3} if pick is None else {2}
        args = ["in.styx", "--validate"]
        before = snapshot(box.d)
        rc, out, err = self.R.run(box, args, home=home)
        judge(self.R, "embedded schema", box, before, args, rc, out, err, (exp, b""), {}, rep={"text": text, "embedded": ids})
    def faults(self, r, box, i):
        """Every call that writes fails in turn."""
        d = self.document(r)
        if not d["ok"] or not d["t"].strip():
            return
        fmt = d["fmt"].encode()
        k = r.choice(["in-place", "in-place", "-o new", "-o old", "json old", "stdout", "link", "hard"])
        def setup():
            for n in os.listdir(box.d):
                p = box.p(n)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
            box.put("dir/in.styx", d["t"], 0o640)
            box.put("dir/old.styx", "old content that was there 1\n", 0o604)
            if k == "link":
                box.link("l.styx", "dir/in.styx")
            if k == "hard":
                os.link(box.p("dir/in.styx"), box.p("twin.styx"))
        args, target, res = {
            "in-place": (["dir/in.styx", "--in-place"], "dir/in.styx", fmt), "-o new": (["dir/in.styx", "-o", "dir/new.styx"], "dir/new.styx", fmt),
            "-o old": (["dir/in.styx", "-o", "dir/old.styx"], "dir/old.styx", fmt), "json old": (["dir/in.styx", "--json-out", "dir/old.styx"], "dir/old.styx", self.result(d, True)),
            "stdout": (["dir/in.styx"], None, fmt), "link": (["l.styx", "--in-place"], "dir/in.styx", fmt), "hard": (["dir/in.styx", "--in-place"], "dir/in.styx", fmt)}[k]
        files = {target: res} if target else {}
        if k == "hard":
            files["twin.styx"] = res
        exp_out = fmt if k == "stdout" else b""
        cnt = box.d + ".count"
        try:
            setup()
            before = snapshot(box.d)
            rc, out, err = self.R.run(box, args, LD_PRELOAD=self.R.shim, FAULT_COUNT=cnt)
            n = int(open(cnt).read().split()[0])
            judge(self.R, "no fault " + k, box, before, args, rc, out, err, ({0}, exp_out), files, rep={"text": d["t"]})
            for at in range(min(n, 14)):
                for mode in r.sample(["enospc", "eio", "short", "kill", "partkill", "full"], 3):
                    setup()
                    rc, out, err = self.R.run(box, args, LD_PRELOAD=self.R.shim, FAULT_COUNT=cnt, FAULT_AT=str(at), FAULT_MODE=mode)
                    try:
                        hit = open(cnt).read().split()[1] == "1"
                    except (OSError, IndexError):
                        hit = False
                    self.R.count("faults injected" if hit else "faults not reached")
                    rep = {"text": d["t"], "fault": mode, "call": at}
                    if rc == 99 and mode in ("kill", "partkill"):
                        with self.R.lock:
                            self.R.ctx.eval(f"killed {k} {at} {mode} {d['t']}")
                            self.R.ctx.count("killed")
                        if k in ("hard", "stdout"):
                            continue
                        after = snapshot(box.d)
                        for f, v in before.items():
                            if v[0] == "file" and after.get(f) != v:
                                x = after.get(f)
                                done = x is not None and x[0] == "file" and x[2] == v[2] and f == target and (res(x[1]) is None if callable(res) else x[1] == res)
                                if not done:
                                    self.R.fail({"C20"}, f"killed:{k}", f"{show(args)} was killed at writing call {at} ({mode}): {f} was {describe(v)} and is {describe(x)}", **rep)
                        continue
                    if mode == "full" and k == "hard":
                        continue
                    judge(self.R, f"fault {mode} {k}", box, before, args, rc, out, err, ({0, 3}, exp_out), files, stdout_ok=k != "stdout", rep=rep)
                    if k == "stdout" and hit and mode in ("enospc", "eio", "full") and rc == 0:
                        self.R.fail({"C19"}, "unreported", f"{show(args)}: writing to standard output failed and the status is 0", **rep)
        finally:
            if os.path.exists(cnt):
                os.remove(cnt)

def json_ok(b):
    try:
        json.loads(b)
        return True
    except ValueError:
        return False

# ---------------------------------------------------------------- the document as JSON
class Collision(Exception):
    pass

def key_name(k):
    if "s" in k:
        return "@" + k["g"][0] + json.dumps(k["s"], ensure_ascii=False) if "g" in k else k["s"]
    return "@" + k["g"][0] if "g" in k else "@"

def joined(ents):
    """Sibling dotted paths are one object: adjacent entries of one plain key whose values are untagged objects."""
    out = []
    for e in ents:
        k, v = e[0], e[1]
        if out:
            pk, pv = out[-1][0], out[-1][1]
            if "s" in k and "s" in pk and k["s"] == pk["s"] and k.get("g") == pk.get("g") and "o" in v and "o" in pv and "g" not in v and "g" not in pv:
                out[-1] = (pk, {"o": pv["o"] + v["o"]})
                continue
        out.append((k, v))
    return out

def to_json(v):
    if v.get("g"):
        d = {"$tag": v["g"][0]}
        if len(v["g"]) > 1:
            raise Collision
        if "s" in v or "q" in v or "o" in v:
            d["$payload"] = to_json({k: v[k] for k in "sqo" if k in v})
        return d
    if "s" in v:
        return v["s"]
    if "q" in v:
        return [to_json(x) for x in v["q"]]
    if "o" in v:
        d = {}
        for k, x in joined(v["o"]):
            n = key_name(k)
            if n in d:
                raise Collision
            d[n] = to_json(x)
        return d
    return None

def doc_json(ents):
    try:
        return to_json({"o": ents})
    except Collision:
        return None

# ---------------------------------------------------------------- S-expressions
class Bad(Exception):
    pass

TOKEN = re.compile(r'\s*(?:(\()|(\))|(\[)\s*(-?\d+)\s*,\s*(-?\d+)\s*\]|("(?:[^"\\\x00-\x1f]|\\.)*")|([a-z]+))', re.S)

def read_sexp(text):
    """The list structure: lists, spans as tuples, strings as str, words as ('w', x)."""
    pos, stack = 0, [[]]
    while True:
        m = TOKEN.match(text, pos)
        if not m:
            if text[pos:].strip():
                raise Bad(f"unexpected {text[pos:pos + 60]!r} at {pos}")
            break
        pos = m.end()
        if m[1]:
            stack.append([])
        elif m[2]:
            if len(stack) < 2:
                raise Bad(f"unbalanced ) at {pos}")
            x = stack.pop()
            stack[-1].append(x)
        elif m[3]:
            stack[-1].append((int(m[4]), int(m[5])))
        elif m[6]:
            try:
                stack[-1].append(json.loads(m[6]))
            except ValueError as e:
                raise Bad(f"string {m[6][:100]} is not a JSON string: {e}")
        else:
            stack[-1].append(("w", m[7]))
    if len(stack) != 1 or len(stack[0]) != 1:
        raise Bad(f"{len(stack) - 1} open lists, {len(stack[0])} at the top")
    return stack[0][0]

def sexp_val(x, n):
    """A parsed node as the same kind of dict the generator exports."""
    if not isinstance(x, list) or not x or not isinstance(x[0], tuple) or x[0][0] != "w":
        raise Bad(f"not a node: {str(x)[:100]}")
    kind = x[0][1]
    if len(x) < 2 or not isinstance(x[1], tuple):
        raise Bad(f"no span: {str(x)[:100]}")
    sp = x[1]
    if not (0 <= sp[0] <= sp[1] <= n):
        raise Bad(f"span {sp} in a text of {n} bytes: {str(x)[:100]}")
    v = {"sp": list(sp)}
    rest = x[2:]
    if kind == "unit":
        if rest:
            raise Bad(f"unit with {rest}")
    elif kind == "scalar":
        if len(rest) != 2 or rest[0] not in (("w", "bare"), ("w", "quoted"), ("w", "raw"), ("w", "heredoc")) or not isinstance(rest[1], str):
            raise Bad(f"scalar {str(x)[:100]}")
        v["s"], v["k"] = rest[1], rest[0][1]
    elif kind == "sequence":
        v["q"] = [sexp_val(y, n) for y in rest]
    elif kind == "object":
        v["o"] = [sexp_ent(y, n) for y in rest if y not in (("w", "newline"), ("w", "comma"))]
    elif kind == "tag":
        if not rest or not isinstance(rest[0], str) or len(rest) > 2:
            raise Bad(f"tag {str(x)[:100]}")
        if len(rest) == 2:
            p = sexp_val(rest[1], n)
            v["psp"] = p.pop("sp")
            v.update(p)
        v["g"] = [rest[0]]
    else:
        raise Bad(f"node {kind}")
    return v

def sexp_ent(x, n):
    if not isinstance(x, list) or x[0] != ("w", "entry") or len(x) != 3:
        raise Bad(f"entry {str(x)[:100]}")
    return [sexp_val(x[1], n), sexp_val(x[2], n)]

def same(a, b, path, tagsp=True):
    """a: exported, b: from the output. Returns a difference or None."""
    if (a.get("g") or [])[:1] != (b.get("g") or []):
        return f"{path}: tag {b.get('g')}, expected {a.get('g')}"
    kinds = [[k for k in "sqo" if k in x] for x in (a, b)]
    if kinds[0] != kinds[1]:
        return f"{path}: {kinds[1]}, expected {kinds[0]}"
    if "s" in a and (a["s"] != b["s"] or a["k"] != b["k"]):
        return f"{path}: scalar {b['k']} {b['s']!r:.200}, expected {a['k']} {a['s']!r:.200}"
    if a.get("sp") and a["sp"] != b["sp"] and not (a.get("g") and a["sp"][1] == b["sp"][1] and a["sp"][0] <= b["sp"][0]):
        return f"{path}: span {b['sp']}, expected {a['sp']}"
    if "q" in a:
        if len(a["q"]) != len(b["q"]):
            return f"{path}: {len(b['q'])} elements, expected {len(a['q'])}"
        for i, (x, y) in enumerate(zip(a["q"], b["q"])):
            m = same(x, y, f"{path}[{i}]")
            if m:
                return m
    if "o" in a:
        return same_ents(a["o"], b["o"], path)

def same_ents(a, b, path):
    if len(a) != len(b):
        return f"{path}: {len(b)} entries, expected {len(a)}"
    for i, (x, y) in enumerate(zip(a, b)):
        m = same(x[0], y[0], f"{path}.key{i}") or same(x[1], y[1], f"{path}.{i}")
        if m:
            return m

def representations(ctx, R, docs):
    """C21."""
    def one(i):
        d = docs[i]
        if not d.get("ok"):
            return
        t = d["t"].encode()
        box = R.plain
        stdin = i % 3 != 0
        if not stdin:
            name = f"d{i}.styx"
            box.put(name, t)
        arg = "-" if stdin else name
        try:
            rc, out, err = R.run(box, ["tree", "--format", "sexp", arg], stdin=t)
            rcj, outj, errj = R.run(box, [arg, "--json-out", "-"], stdin=t)
        finally:
            if not stdin:
                os.remove(box.p(name))
        rep = {"text": d["t"], "sexp": out[:3000].decode("utf-8", "replace"), "json": outj[:3000].decode("utf-8", "replace")}
        with R.lock:
            ctx.eval(t)
            ctx.count("documents")
            ctx.sample(d["t"][:300])
        if rc != 0 or rcj != 0:
            return R.fail({"C21"}, "status", f"exit {rc}, {rcj} for a valid document: {err[:200]!r} {errj[:200]!r}", **rep)
        # S-expression
        try:
            s = out.decode("utf-8")
        except UnicodeDecodeError as e:
            return R.fail({"C21"}, "sexp:utf8", str(e), **rep)
        first, _, rest = s.partition("\n")
        if first != f"; file: {'<stdin>' if stdin else name}":
            R.fail({"C21"}, "sexp:header", f"first line {first!r}", **rep)
        try:
            x = read_sexp(rest)
            if not x or x[0] != ("w", "document") or len(x) < 2 or not isinstance(x[1], tuple):
                raise Bad(f"not a document: {str(x)[:100]}")
            ents = [sexp_ent(y, len(t)) for y in x[2:]]
        except Bad as e:
            return R.fail({"C21"}, "sexp:form", str(e), **rep)
        m = same_ents(d["tree"], ents, "")
        if m:
            R.fail({"C21"}, "sexp:tree", m, **rep)
        # texts of scalars, by the reference reader and by the spans
        if d["v"] == "valid":
            R.count("judged by the reference reader")
        def walk(v, fn):
            fn(v)
            for y in v.get("q", []):
                walk(y, fn)
            for e in v.get("o", []):
                walk(e[0], fn)
                walk(e[1], fn)
        def spans(v):
            if "s" in v and v["k"] == "bare" and "g" not in v:
                R.count("bare scalars under their span")
                if t[v["sp"][0]:v["sp"][1]] != v["s"].encode() and b"." not in t[v["sp"][0]:v["sp"][1]]:
                    R.fail({"C21"}, "sexp:span", f"span {v['sp']} holds {t[v['sp'][0]:v['sp'][1]]!r}, the scalar is {v['s']!r}", **rep)
        for k, v in ents:
            walk(k, spans)
            walk(v, spans)
        # JSON
        try:
            keys = []
            def pairs(ps):
                if len({k for k, _ in ps}) != len(ps):
                    keys.append([k for k, _ in ps])
                return dict(ps)
            j = json.loads(outj.decode("utf-8"), object_pairs_hook=pairs)
        except (ValueError, UnicodeDecodeError) as e:
            return R.fail({"C21"}, "json:form", f"{e}: {outj[:300]!r}", **rep)
        if keys:
            R.fail({"C21"}, "json:duplicate", f"duplicate keys {keys[0]}", **rep)
        if d["json"] is None:
            R.count("not representable one to one")
        else:
            R.count("JSON compared")
            if j != d["json"]:
                R.fail({"C21"}, "json:tree", f"{json.dumps(j)[:500]}, expected {json.dumps(d['json'])[:500]}", **rep)
            rj = doc_json(d["ref"]) if d["v"] == "valid" else None
            if rj is not None and rj != d["json"] and not d["apart"]:
                R.fail({"C21"}, "json:reference", f"{json.dumps(j)[:500]}, by the reference reader {json.dumps(rj)[:500]}", **rep)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for _ in ex.map(one, range(len(docs))):
            pass

def golden(ctx, R):
    """The committed expectation for the corpus."""
    want = open(os.path.join(REPO, "compliance/golden.sexp"), encoding="utf-8").read()
    parts = re.split(r"(?m)^; file: ", want)[1:]
    for p in parts:
        name, _, body = p.partition("\n")
        name = name.strip()
        f = os.path.join(REPO, name)
        if not os.path.isfile(f):
            continue
        q = subprocess.run([R.exe, "tree", "--format", "sexp", name], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=R.env(R.root), timeout=60)
        got = q.stdout.decode("utf-8", "replace").partition("\n")[2]
        ctx.eval("golden " + name)
        ctx.count("corpus files")
        if got.strip() != body.strip():
            ctx.fail("golden", f"{name}: {got[:400]!r}, the committed expectation is {body[:400]!r}")

def docs_for(ctx, kinds):
    out = []
    for k, n in kinds:
        out += generate(ctx, k, n)
    for d in out:
        d["apart"] = True
        if d.get("ok"):
            d["json"] = doc_json(d["tree"])
            if d["v"] == "valid":
                # where the tree and the reference agree (C04's business), the reference speaks for both
                d["apart"] = doc_json(d["ref"]) != d["json"]
    return [d for d in out if "panic" not in d]

def generate(ctx, k, n):
    return core.generate(ctx, k, n)

def run(ctx):
    core.build(False)
    exe = os.path.join(workspace(), "styx")
    if not os.path.exists(exe):
        raise Undecided("no styx binary")
    shim = os.path.join(BUILD, "fault.so")
    with Lock():
        sh(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(VERIF, "harness/shim/fault.c"), "-ldl"], 60)
    t0 = time.time()
    with Scratch(f"cli-{ctx.prop}") as root:
        os.chmod(root, 0o755)
        os.makedirs(os.path.join(root, "home"))
        R = Runner(ctx, root, exe, shim)
        R.plain = Box(root, "plain")
        if ctx.prop == "C21":
            ctx.rule = "distinct texts"
            ctx.assumptions.append("the expected tree is the library's (its agreement with the reference is C04), read with this check's own JSON and S-expression readers")
            ctx.must += ["JSON compared", "corpus files", "bare scalars under their span"]
            golden(ctx, R)
            rc, out, err = R.run(R.plain, ["tree", "--format", "sexp", "-"], stdin=b"x @err{a 1}\n")
            ctx.probe("tag-span", b'(tag [2, 11] "err"' not in out, f"{out!r}")
            secs = 500 if ctx.thorough else 40
            k = 0
            while time.time() - t0 < secs and len(ctx.violations) < 20:
                docs = docs_for(type("S", (), {"seed": ctx.seed + 1000 * k})(), (("plain", 300), ("gen", 500), ("big", 25), ("mut", 200)))
                representations(ctx, R, docs)
                k += 1
            return
        ctx.rule = "distinct (kind, arguments, files, status) tuples"
        ctx.assumptions.append("which texts are valid is the library's verdict (C04), which documents conform is the independent validator's (C16)")
        docs = docs_for(ctx, (("gen", 350), ("plain", 150), ("mut", 350), ("soup", 100), ("big", 8)))
        schemas = core.generate(ctx, "schema", 250)
        C = Cases(R, docs, schemas)
        C.anybox = R.plain
        ctx.extra["runs as an unprivileged user"] = R.nobody
        ctx.must += ["faults injected", "killed", "exit 0", "exit 1", "exit 2", "exit 3", "conforming", "violating", "unreadable bytes", "package good", "extract"]
        secs = 500 if ctx.thorough else 40
        i = 0
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            while time.time() - t0 < secs and len(ctx.violations) < 25:
                for f in [ex.submit(C.go, j) for j in range(i, i + 200)]:
                    f.result()
                i += 200
        # --compact is accepted and does nothing
        if ctx.prop == "C19":
            rc, out, err = R.run(R.plain, ["-", "--compact"], stdin=b"b {\n  c d\n  e f\n}\n")
            ctx.probe("compact-ignored", rc != 0 or out.strip().count(b"\n") > 0, f"styx - --compact gave {out!r}")
