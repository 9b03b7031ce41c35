"""C33: the Go packages that `styx gen go` writes, compiled, vetted, reflected on and run against the schema they came from."""
import json, math, os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .common import REPO, BUILD, Scratch, Undecided, sh, env, workspace, limit

PLAIN = ["host", "port", "name", "tls", "items", "user_name", "max-size", "a", "x1", "timeoutMs", "Kind", "log_level", "b2b", "type", "func", "map", "string", "range", "value", "id", "url"]
ODD = ["foo_bar", "foo-bar", "fooBar", "FooBar", "foo__bar", "foo_bar_", "validate", "Validate", "1st", "404", "é", "été", "日本", "ключ", "a.b", "a b", "a/b:c", "it's", "qu\"ote", "back\\slash", "tick`tick", "a%d%s", "tab\tbed",
       "Error", "root", "x2", "x", "$ref", "😀", "_", "_id", "😀 a", "\x7f", "field2", "field", "Field"]
TYPES = ["Server", "Database", "Endpoint", "Mode", "Level", "Port", "Tags", "http_route", "log-level", "Tls", "User", "Settings", "Item", "Weights"]
ODDTYPES = ["Root", "Parse", "ValidationError", "ValidationErrors", "LoadFromFile", "http-route", "httpRoute", "foo_bar", "foo-bar", "fooBar", "ServerTls", "RootHost", "_x", "x1", "root", "validate", "ModeFast", "ServerHost", "Error", "String"]
VARIANTS = ["fast", "slow", "a_b", "a-b", "aB", "off", "on", "very-slow", "Debug", "x", "v1", "default", "nil", "true_"]
DOCS = ["The name.", "Says \"hi\" to `them`", "50% of */ it // now", "é 日本", "go:embed x", "  indented", "package other", "type X struct {"]
I64 = (-2**63, 2**63 - 1)

def quoted(s):
    if re.fullmatch(r"[A-Za-z0-9_][A-Za-z0-9_.-]*", s):
        return s
    o = '"'
    for c in s:
        o += {'"': '\\"', "\\": "\\\\", "\t": "\\t"}.get(c) or (f"\\u{{{ord(c):x}}}" if ord(c) < 32 or ord(c) == 127 else c)
    return o + '"'

class Gen:
    """A schema as a model and as text. A type is a tuple whose head says what it is."""
    def __init__(self, r):
        self.r = r
        self.odd = r.random() < 0.4
        n = r.choice([0, 1, 2, 3, 4, 6])
        pool = TYPES + (ODDTYPES if self.odd else [])
        self.names = r.sample(pool, n)
        self.kinds = [r.choice(["object", "object", "enum", "string", "int", "float", "bool", "seq", "map", "tuple", "any", "one-of", "union"]) for _ in self.names]
        self.types = {}
        for i, name in enumerate(self.names):
            self.types[name] = self.top(i, self.kinds[i])
        self.root = self.top(n, "object") if r.random() < 0.9 else self.top(n, r.choice(["map", "seq", "enum", "string"]))
    def top(self, i, kind):
        r = self.r
        if kind == "object":
            return self.obj(i, r.randint(0, 2))
        if kind == "enum":
            vs = r.sample(VARIANTS, r.randint(0, 5))
            return ("enum", [(v, r.choice([("unit",), ("unit",), ("string", {}), ("object", [("x", ("int", {}), None)])])) for v in vs])
        return self.of(kind, i, 2)
    def obj(self, i, depth):
        r = self.r
        pool = PLAIN + (ODD * 2 if self.odd else [])
        keys, fields = set(), []
        for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8])):
            k = r.choice(pool)
            if k in keys:
                continue
            keys.add(k)
            fields.append((k, self.field(i, depth), r.choice(DOCS) if r.random() < 0.25 else None))
        return ("object", fields)
    def field(self, i, depth):
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.15:
            t = self.obj(i, depth - 1)
        elif x < 0.3 and i < len(self.names) + 1 and self.names[:i]:
            t = ("ref", r.choice(self.names[:i]))
        elif x < 0.36 and self.names:
            t = ("optional", ("ref", r.choice(self.names)))       # may be recursive: behind a pointer
            return t
        else:
            t = self.of(r.choice(["string", "string", "int", "int", "float", "bool", "seq", "map", "tuple", "any", "enum", "one-of", "union", "unit"]), i, 2)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            w = r.choice(["optional", "default", "deprecated"])
            if w == "default":
                if t[0] not in ("int", "string", "float", "bool"):
                    continue
                t = ("default", self.value(t), t)
            elif w == "deprecated":
                t = ("deprecated", t)
            elif t[0] not in ("any", "one-of", "union", "optional"):
                t = ("optional", t)
        return t
    def value(self, t):
        b = t[1] if len(t) > 1 else {}
        if t[0] == "bool":
            return "true"
        if t[0] == "string":
            return '"' + "d" * b.get("min", 0) + '"'
        return str(b.get("min", b.get("max", 0)))
    def of(self, kind, i, depth):
        r = self.r
        if kind == "string":
            b = {}
            if r.random() < 0.5:
                b["min"] = r.choice([0, 1, 2, 3, 8, 40])
            if r.random() < 0.5:
                b["max"] = b.get("min", 0) + r.choice([0, 1, 2, 10, 100])
            return ("string", b)
        if kind == "int":
            b = {}
            if r.random() < 0.5:
                b["min"] = r.choice([0, 1, -1, -5, 10, 1024, -2**31, I64[0], I64[0] - 1, -2**100, 2**53 + 1])
            if r.random() < 0.5:
                hi = r.choice([0, 1, 5, 10, 65535, 2**31, 2**53 + 1, I64[1], I64[1] + 1, 2**64, 2**100])
                if hi >= b.get("min", hi):
                    b["max"] = hi
            return ("int", b)
        if kind == "float":
            b = {}
            if r.random() < 0.5:
                b["min"] = r.choice([0.0, 1.0, -1.5, 0.1, -0.001, 1e-7, -1e30])
            if r.random() < 0.5:
                hi = r.choice([0.5, 1.0, 2.25, 99.99, 1e10, 1e22, 123456.789])
                if hi >= b.get("min", hi):
                    b["max"] = hi
            return ("float", b)
        if kind in ("bool", "any", "unit"):
            return (kind,)
        if kind == "enum":
            return ("enum", [(v, ("unit",)) for v in r.sample(VARIANTS, r.randint(1, 3))])
        if kind == "one-of":
            return ("one-of",)
        if kind == "union":
            return ("union",)
        if kind == "seq":
            return ("seq", self.inner(i, depth))
        if kind == "tuple":
            if r.random() < 0.4:
                return ("tuple", [self.inner(i, depth)] * r.randint(1, 3))
            return ("tuple", [self.inner(i, depth) for _ in range(r.randint(1, 3))])
        if kind == "map":
            v = self.inner(i, depth)
            if r.random() < 0.5:
                return ("map", None, v)
            ks = [("string", {}), ("int", {}), ("bool",), ("enum", [("a", ("unit",))])]
            ks += [("ref", n) for n, k in zip(self.names[:i], self.kinds) if k in ("string", "int", "enum", "bool")]
            return ("map", r.choice(ks), v)
        raise ValueError(kind)
    def inner(self, i, depth):
        r = self.r
        if self.names and r.random() < 0.35:
            if i >= len(self.names) or self.kinds[i] == "object":
                return ("ref", r.choice(self.names))              # behind a slice or a map: may be recursive
            if self.names[:i]:
                return ("ref", r.choice(self.names[:i]))
        kinds = ["string", "int", "float", "bool", "any", "unit", "enum"]
        if depth > 0:
            kinds += ["seq", "map", "tuple", "optional", "object"]
        k = r.choice(kinds)
        if k == "optional":
            t = self.inner(i, depth - 1)
            return ("optional", t) if t[0] not in ("any", "one-of", "union", "optional") else t
        if k == "object":
            return ("object", [("x", ("int", {}), None)])
        return self.of(k, i, depth - 1)
    # -- as text
    def text(self, t, ind=1):
        k = t[0]
        if k in ("string", "int", "float"):
            b = t[1]
            names = {"min": "minLen", "max": "maxLen"} if k == "string" else {"min": "min", "max": "max"}
            num = (lambda v: repr(v)) if k == "float" else str
            return f"@{k}" + ("{" + ", ".join(f"{names[x]} {num(v)}" for x, v in b.items()) + "}" if b else "")
        if k in ("bool", "any", "unit"):
            return "@" + k
        if k == "object":
            return "@object{" + self.entries(t[1], ind) + "}"
        if k == "enum":
            return "@enum{" + ", ".join(f"{v} {self.text(p, ind)}" for v, p in t[1]) + "}"
        if k == "one-of":
            return "@one-of(@string (a b))"
        if k == "union":
            return "@union(@int @string)"
        if k == "ref":
            return "@" + t[1]
        if k == "map":
            return "@map(" + (self.text(t[1], ind) + " " if t[1] else "") + self.text(t[2], ind) + ")"
        if k == "tuple":
            return "@tuple(" + " ".join(self.text(x, ind) for x in t[1]) + ")"
        if k == "default":
            return f"@default({t[1]} {self.text(t[2], ind)})"
        if k == "deprecated":
            return f"@deprecated(\"old\" {self.text(t[1], ind)})"
        return f"@{k}({self.text(t[1], ind)})"
    def entries(self, fields, ind):
        o = "\n"
        pad = "    " * (ind + 1)
        for k, t, doc in fields:
            if doc:
                o += f"{pad}/// {doc}\n"
            o += f"{pad}{quoted(k)} {self.text(t, ind + 1)}\n"
        return o + "    " * ind
    def document(self):
        defs = [("@", self.root)] + list(self.types.items())
        self.r.shuffle(defs)
        return "meta {id test, version 1}\nschema {\n" + "".join(f"    {n} {self.text(t)}\n" for n, t in defs) + "}\n"

def core(t):
    """(type under the wrappers a field may have, is it optional)."""
    opt = False
    while t[0] in ("default", "deprecated", "optional"):
        opt = opt or t[0] == "optional"
        t = t[2] if t[0] == "default" else t[1]
    return t, opt

def pascal(s):
    return "".join(w[:1].upper() + w[1:] for w in re.split("[_-]", s))

class Mismatch(Exception):
    pass

class Match:
    """Compares a schema with the reflected types; binds schema names to Go names one to one."""
    def __init__(self, g, types):
        self.g, self.types, self.bound, self.taken, self.nested = g, types, {}, {}, 0
        self.structs = []        # (Go name, fields) for validation
        self.fields = 0
    def bind(self, key, go):
        if self.bound.setdefault(key, go) != go:
            raise Mismatch(f"{key} is {self.bound[key]} in one place and {go} in another")
        if self.taken.setdefault(go, key) != key:
            raise Mismatch(f"{go} stands for both {self.taken[go]} and {key}")
    def same(self, t, d, at):
        """d: descriptor of the Go type that stands for schema type t inside another type."""
        def want(x):
            if d != x:
                raise Mismatch(f"{at}: {self.g.text(t)} is {d} in Go, expected {x}")
        def shape(head):
            if not isinstance(d, list) or d[0] != head:
                raise Mismatch(f"{at}: {self.g.text(t)} is {d} in Go, expected a {head}")
            return d
        k = t[0]
        if k in ("default", "deprecated"):
            return self.same(t[2] if k == "default" else t[1], d, at)
        if k in ("string", "enum"):
            want("string")
        elif k in ("int", "float", "bool", "unit", "any"):
            want({"int": "int64", "float": "float64", "bool": "bool", "unit": "struct{}", "any": "interface{}"}[k])
        elif k in ("one-of", "union"):
            want("interface{}")
        elif k == "object":
            want(["map", "string", "interface{}"])
        elif k == "seq":
            self.same(t[1], shape("slice")[1], at)
        elif k == "tuple":
            e = shape("slice")[1]
            if e == "interface{}":
                if all(x == t[1][0] for x in t[1]) and t[1][0][0] in ("string", "int", "float", "bool"):
                    raise Mismatch(f"{at}: every element of {self.g.text(t)} has one type, the Go type says interface")
            else:
                for x in t[1]:
                    self.same(x, e, at)
        elif k == "map":
            shape("map")
            self.same(t[1] or ("string", {}), d[1], at)
            self.same(t[2], d[2], at)
        elif k == "ref":
            self.bind("@" + t[1], shape("named")[1])
        elif k == "optional":
            if isinstance(d, list) and d[0] in ("slice", "map"):
                self.same(t[1], d, at)
            else:
                self.same(t[1], shape("ptr")[1], at)
        else:
            raise ValueError(k)
    def field(self, t, f, at, doc):
        self.fields += 1
        c, opt = core(t)
        tag = f["styx"]
        if tag.endswith(",optional") != opt:
            raise Mismatch(f"{at}: the tag says {tag!r}, the schema says {self.g.text(t)}")
        if f["json"].split(",")[0] != f["name"] or ("omitempty" in f["json"].split(",")[1:]) != opt:
            raise Mismatch(f"{at}: json tag {f['json']!r}")
        if c[0] == "object":
            d = f["type"]
            if opt:
                if d[0] != "ptr":
                    raise Mismatch(f"{at}: optional object is {d}")
                d = d[1]
            if d[0] != "named":
                raise Mismatch(f"{at}: inline object is {d}")
            self.bind("object at " + at, d[1])
            self.nested += 1
            self.struct(c, d[1], at)
        elif opt:
            self.same(("optional", c), f["type"], at)
        else:
            self.same(c, f["type"], at)
    def struct(self, t, go, at):
        d = self.types.get(go)
        if d is None or d["kind"] != "struct":
            raise Mismatch(f"{at}: {go} is {d and d['kind']}, not a struct")
        by = {}
        for f in d["fields"]:
            f["name"] = re.sub(r",optional$", "", f["styx"])
            if f["name"] in by:
                raise Mismatch(f"{at}: two fields of {go} are tagged {f['name']!r}")
            by[f["name"]] = f
        want = {k for k, _, _ in t[1]}
        if set(by) != want:
            raise Mismatch(f"{at}: {go} has fields for {sorted(by)}, the schema has {sorted(want)}")
        self.structs.append((go, t[1]))
        for k, ft, doc in t[1]:
            self.field(ft, by[k], f"{at}.{k}", doc)
    def named(self, t, go, at):
        d = self.types.get(go)
        if d is None:
            raise Mismatch(f"{at}: there is no Go type {go}")
        if t[0] == "object":
            return self.struct(t, go, at)
        if t[0] == "enum":
            if d["kind"] != "string":
                raise Mismatch(f"{at}: enum {go} is a {d['kind']}")
            want = sorted(v for v, _ in t[1])
            if sorted(d["consts"]) != want:
                raise Mismatch(f"{at}: the constants of {go} are {sorted(d['consts'])}, the variants {want}")
            return
        self.same(t, d["under"], at)
    def all(self):
        g = self.g
        self.bind("root", "Root")
        self.named(g.root, "Root", "root")
        wish = [pascal(n) for n in g.names]
        for n in g.names:
            p = pascal(n)
            if "@" + n not in self.bound and re.fullmatch("[A-Z][A-Za-z0-9]*", p) and wish.count(p) == 1 and p not in ("Root", "Parse", "LoadFromFile", "ValidationError", "ValidationErrors"):
                self.bind("@" + n, p)
        seen = set()
        while True:
            left = [n for n in g.names if "@" + n in self.bound and n not in seen]
            if not left:
                break
            for n in left:
                seen.add(n)
                self.named(g.types[n], self.bound["@" + n], n)
        # names only met nowhere else: whatever types are left
        rest = len(g.names) - len(seen)
        if len(self.types) - 1 - len(seen) < rest or (not rest and len(self.types) != 1 + len(seen) + self.nested):
            raise Mismatch(f"{len(self.types)} Go types {sorted(self.types)} for the root, {len(g.names)} named types and {self.nested} inline objects")
        return len(seen)

def values(r, t):
    """Values to try on a constrained field, each with the number of constraints it breaks."""
    c, opt = core(t)
    b = c[1]
    lo, hi = b.get("min"), b.get("max")
    if c[0] == "string":
        ns = {0, 1} | {n + d for n in (lo, hi) if n is not None for d in (-1, 0, 1) if n + d >= 0}
        n = r.choice(sorted(ns))
        v = "x" * n if n < 2 or r.random() < 0.7 else "é" + "x" * (n - 2)
        m = len(v.encode())
        return v, [x for x, bad in (("min", lo is not None and m < lo), ("max", hi is not None and m > hi)) if bad]
    if c[0] == "int":
        ns = {0, *I64} | {n + d for n in (lo, hi) if n is not None for d in (-1, 0, 1) if I64[0] <= n + d <= I64[1]}
        v = r.choice(sorted(ns))
    else:
        ns = {0.0} | {x for n in (lo, hi) if n is not None for x in (n, math.nextafter(n, math.inf), math.nextafter(n, -math.inf), n + 1, n - 1)}
        v = r.choice(sorted(ns))
    return v, [x for x, bad in (("min", lo is not None and v < lo), ("max", hi is not None and v > hi)) if bad]

GO = r'''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
)

type pkg struct {
	types  map[string]reflect.Type
	consts map[string][]string
}

var pkgs = map[string]pkg{}

func describe(t reflect.Type, top bool) any {
	if t.PkgPath() != "" && !top {
		return []any{"named", t.Name()}
	}
	switch t.Kind() {
	case reflect.Ptr:
		return []any{"ptr", describe(t.Elem(), false)}
	case reflect.Slice:
		return []any{"slice", describe(t.Elem(), false)}
	case reflect.Map:
		return []any{"map", describe(t.Key(), false), describe(t.Elem(), false)}
	case reflect.Interface:
		return "interface{}"
	case reflect.Struct:
		if t.NumField() == 0 {
			return "struct{}"
		}
	}
	return t.Kind().String()
}

type set struct{ F, V string }
type job struct {
	Pkg, Type string
	Set       []set
}

func run(j job) (out [][]string, e string) {
	defer func() {
		if x := recover(); x != nil {
			e = fmt.Sprint("panic: ", x)
		}
	}()
	v := reflect.New(pkgs[j.Pkg].types[j.Type])
	for _, s := range j.Set {
		t := v.Elem().Type()
		for i := 0; i < t.NumField(); i++ {
			g := t.Field(i).Tag.Get("styx")
			if g != s.F && g != s.F+",optional" {
				continue
			}
			f := v.Elem().Field(i)
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			switch f.Kind() {
			case reflect.String:
				f.SetString(s.V)
			case reflect.Int64:
				n, err := strconv.ParseInt(s.V, 10, 64)
				if err != nil {
					panic(err)
				}
				f.SetInt(n)
			case reflect.Float64:
				n, err := strconv.ParseFloat(s.V, 64)
				if err != nil {
					panic(err)
				}
				f.SetFloat(n)
			default:
				panic("field " + s.F + " is a " + f.Kind().String())
			}
		}
	}
	err := v.Interface().(interface{ Validate() error }).Validate()
	if err == nil {
		return [][]string{}, ""
	}
	_ = err.Error()
	l := reflect.ValueOf(err)
	if l.Kind() != reflect.Slice {
		return nil, "the error is a " + l.Type().String()
	}
	for i := 0; i < l.Len(); i++ {
		x := l.Index(i).Elem()
		out = append(out, []string{x.FieldByName("Field").String(), x.FieldByName("Message").String()})
	}
	return out, ""
}

func main() {
	register()
	if len(os.Args) == 1 {
		all := map[string]any{}
		for p, k := range pkgs {
			ts := map[string]any{}
			for n, t := range k.types {
				d := map[string]any{"kind": t.Kind().String(), "consts": append([]string{}, k.consts[n]...)}
				if t.Kind() == reflect.Struct {
					fs := []any{}
					for i := 0; i < t.NumField(); i++ {
						f := t.Field(i)
						fs = append(fs, map[string]any{"go": f.Name, "styx": f.Tag.Get("styx"), "json": f.Tag.Get("json"), "type": describe(f.Type, false)})
					}
					d["fields"] = fs
				} else {
					d["under"] = describe(t, true)
				}
				ts[n] = d
			}
			all[p] = ts
		}
		json.NewEncoder(os.Stdout).Encode(all)
		return
	}
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var j job
		if dec.Decode(&j) != nil {
			return
		}
		out, e := run(j)
		enc.Encode(map[string]any{"out": out, "err": e})
	}
}
'''

def generate(exe, d, text):
    src = os.path.join(d, "schema.styx")
    with open(src, "w") as f:
        f.write(text)
    files = []
    for k in ("a", "b"):
        o = os.path.join(d, k)
        os.makedirs(o)
        p = subprocess.run([exe, "gen", "go", src, "--output", o, "--package", "sut"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env(), preexec_fn=limit(4, 30))
        if p.returncode:
            return p.stderr.decode("utf-8", "replace")[-600:], None
        files.append({n: open(os.path.join(o, n), encoding="utf-8", newline="").read() for n in sorted(os.listdir(o))})
    return None, files

def batch(ctx, exe, tmp, r, n):
    top = os.path.join(tmp, "go")
    os.makedirs(top)
    m = "github.com/bearcove/styx/implementations/styx-go"
    impl = os.path.join(REPO, "implementations/styx-go")
    v = re.search(r"^go (\S+)", open(os.path.join(impl, "go.mod")).read(), re.M)[1]
    with open(os.path.join(top, "go.mod"), "w") as f:
        f.write(f"module drive\n\ngo {v}\n\nrequire {m} v0.0.0\n\nreplace {m} => {impl}\n")
    with open(os.path.join(top, "main.go"), "w") as f:
        f.write(GO)
    gens = [Gen(r) for _ in range(n)]
    texts = [g.document() for g in gens]
    def one(i):
        d = os.path.join(tmp, f"s{i}")
        os.makedirs(d)
        return generate(exe, d, texts[i])
    with ThreadPoolExecutor(8) as ex:
        made = list(ex.map(one, range(n)))
    live = {}
    for i, (err, files) in enumerate(made):
        ctx.eval(texts[i])
        if err is not None:
            ctx.fail("refused", f"styx gen go refuses a schema: {err}\n{texts[i]}", schema=texts[i])
            continue
        ctx.count("schemas generated")
        if files[0] != files[1]:
            which = [k for k in files[0] if files[0][k] != files[1].get(k)]
            ctx.fail("unstable", f"two runs on the same schema write different {which}\n{texts[i]}", schema=texts[i], files=files)
        if set(files[0]) != {"types.go", "validation.go", "parse.go"}:
            ctx.fail("files", f"wrote {sorted(files[0])}", schema=texts[i])
            continue
        live[f"s{i}"] = (gens[i], texts[i], files[0])
        d = os.path.join(top, f"s{i}")
        os.makedirs(d)
        for k, body in files[0].items():
            with open(os.path.join(d, k), "w", newline="") as f:
                f.write(body)
    e = dict(GOFLAGS="-mod=mod", GOCACHE=os.path.join(BUILD, "gocache"))
    def drop(out, what):
        bad = sorted(set(re.findall(r"\b(s\d+)/(?:types|validation|parse)\.go", out)))
        if not bad:
            raise Undecided(f"{what}: {out[-3000:]}")
        for p in bad:
            if p in live:
                g, t, files = live.pop(p)
                lines = [l for l in out.splitlines() if p + "/" in l][:4]
                ctx.fail(what, "\n".join(lines) + "\n" + t, schema=t, files=files)
    # vet type-checks every package, so one pass finds both what does not compile and what vet objects to
    p = subprocess.run(["go", "vet"] + [f"./{k}" for k in live], cwd=top, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, env=env(**e), text=True, errors="replace")
    if p.returncode:
        drop(p.stdout, "go vet")
    ctx.count("packages vetted", len(live))
    for attempt in range(4):
        reg = 'package main\n\nimport (\n\t"reflect"\n' + "".join(f'\t"drive/{k}"\n' for k in live) + ")\n\nfunc register() {\n"
        reg = reg.replace('\t"reflect"\n', '\t"reflect"\n', 1)
        for k, (g, t, files) in live.items():
            ts = re.findall(r"^type (\w+) ", files["types.go"], re.M)
            cs = re.findall(r"^\t(\w+) (\w+) = \"", files["types.go"], re.M)
            reg += f'\tpkgs["{k}"] = pkg{{map[string]reflect.Type{{' + ", ".join(f'"{x}": reflect.TypeOf((*sut_{k}.{x})(nil)).Elem()' for x in ts) + "}, map[string][]string{"
            by = {}
            for c, x in cs:
                by.setdefault(x, []).append(c)
            reg += ", ".join(f'"{x}": {{' + ", ".join(f"string(sut_{k}.{c})" for c in cl) + "}" for x, cl in by.items()) + "}}\n"
        reg += "}\n"
        reg = re.sub(r'\t"drive/(s\d+)"\n', r'\tsut_\1 "drive/\1"\n', reg)
        with open(os.path.join(top, "register.go"), "w") as f:
            f.write(reg)
        p = subprocess.run(["go", "build", "-o", "drive", "."], cwd=top, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, env=env(**e), text=True, errors="replace")
        if p.returncode == 0:
            break
        drop(p.stdout, "go build")
    else:
        raise Undecided("the generated packages do not build: " + p.stdout[-2000:])
    ctx.count("packages compiled", len(live))
    exe2 = os.path.join(top, "drive")
    types = json.loads(sh([exe2], 60))
    jobs, expect = [], []
    for k, (g, t, files) in live.items():
        ma = Match(g, types[k])
        try:
            ctx.count("named types", ma.all())
        except Mismatch as x:
            ctx.fail("types", f"{x}\n{t}\n{files['types.go']}", schema=t, files=files)
            continue
        ctx.count("fields", ma.fields)
        ctx.count("inline objects", ma.nested)
        ctx.count("odd schemas", int(g.odd))
        for name, fields in [x for x in ma.structs]:
            for f, ft, doc in fields:
                if core(ft)[1]:
                    ctx.count("optional fields")
                if doc:
                    tag = re.search(r"// ([^\n]*)\n\t\w+ [^\n]*styx:" + re.escape(json.dumps(f, ensure_ascii=False)[:-1]) + '["\\\\,]', files["types.go"])
                    ctx.count("documented fields")
                    if not re.search(r"[^\w.-]", f) and (not tag or tag[1].strip() != doc.strip()) and not any(d and d != doc for f2, _, d in sum((y for _, y in ma.structs), []) if f2 == f):
                        ctx.fail("doc", f"the doc comment {doc!r} of {f!r} is not above its field\n{files['types.go']}", schema=t)
            bound = [(f, ft) for f, ft, _ in fields if core(ft)[0][0] in ("string", "int", "float") and core(ft)[0][1]]
            for _ in range(4 if bound else 1):
                sets, want = [], {}
                for f, ft in bound:
                    c, opt = core(ft)
                    if opt and r.random() < 0.3:
                        continue         # left nil: nothing to report
                    val, bad = values(r, ft)
                    if not opt and r.random() < 0.1:
                        val = "" if c[0] == "string" else 0
                        m = 0
                        bad = [x for x, y in (("min", c[1].get("min") is not None and m < c[1]["min"]), ("max", c[1].get("max") is not None and m > c[1]["max"])) if y]
                    sets.append({"F": f, "V": val if c[0] == "string" else repr(val)})
                    if bad:
                        want[f] = [(x, c[1][x], c[0]) for x in bad]
                jobs.append({"Pkg": k, "Type": name, "Set": sets})
                expect.append((want, t, files))
                ctx.count("values validated")
    p = subprocess.run([exe2, "run"], input="\n".join(json.dumps(j) for j in jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env(), text=True)
    res = [json.loads(l) for l in p.stdout.splitlines()]
    if len(res) != len(jobs):
        raise Undecided(f"the Go program answered {len(res)} of {len(jobs)} jobs: {p.stderr[-2000:]}")
    for j, (want, t, files), g in zip(jobs, expect, res):
        ctx.eval(json.dumps(j) + t)
        what = f"{j['Type']}.Validate() with {json.dumps(j['Set'], ensure_ascii=False)}"
        if g["err"]:
            ctx.fail("validate panics", f"{what}: {g['err']}\n{t}", schema=t, job=j)
            continue
        got = {}
        for f, msg in g["out"] or []:
            got.setdefault(f, []).append(msg)
        if {f: len(x) for f, x in got.items()} != {f: len(x) for f, x in want.items()}:
            ctx.fail("validate", f"{what} reports {got}, expected {want}\n{t}", schema=t, job=j)
            continue
        ctx.count("violations reported", len(got))
        ctx.count("values accepted", int(not got))
        for f, ms in got.items():
            for (x, b, kind), msg in zip(want[f], ms):
                num = re.search(r"-?\d[\d.eE+-]*$", msg)
                word = "least" if x == "min" else "most"
                ok = num and word in msg and (float(num[0]) == b if kind == "float" else int(num[0]) == max(I64[0], min(I64[1], b)))
                if not ok:
                    ctx.fail("message", f"{what}: the {x} {b} of {f} is reported as {msg!r}", schema=t, job=j)
    for k, (g, t, files) in list(live.items())[:1]:
        ctx.sample({"schema": t[:500], "types.go": files["types.go"][:700]})

def run(ctx):
    exe = os.path.join(workspace(), "styx")
    if not os.path.exists(exe):
        raise Undecided("no styx binary")
    ctx.rule = "distinct schemas and values"
    ctx.assumptions += ["the Go toolchain's compiler, vet and reflect package", "Parse and LoadFromFile are only compiled: filling the structs from a document is not implemented (a TODO in the generated code)"]
    ctx.must += ["packages compiled", "packages vetted", "violations reported", "values accepted", "optional fields", "inline objects", "named types", "documented fields", "odd schemas"]
    t0 = time.time()
    secs = 400 if ctx.thorough else 25
    k = 0
    while k == 0 or (time.time() - t0 < secs and len(ctx.violations) < 20):
        with Scratch(f"gengo-{ctx.prop}-{k}") as tmp:
            batch(ctx, exe, tmp, random.Random(ctx.seed * 1000 + k), 60)
        ctx.count("batches")
        k += 1
