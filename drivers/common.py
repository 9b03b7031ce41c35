"""Shared by all checks: building from /repo's working tree, findings, verdicts and evidence."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
os.makedirs(BUILD, exist_ok=True)

class Undecided(Exception):
    pass

def env(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", NO_COLOR="1", LANG="C.UTF-8",
             GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="", GOWORK="off", PYTHONDONTWRITEBYTECODE="1")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(kw)
    return e

class Lock:
    """One build at a time in .build."""
    def __enter__(self):
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def source_hash():
    """Hash of /repo's sources as they are in the working tree."""
    h = hashlib.sha256()
    for top in ("crates", "Cargo.toml", "Cargo.lock", "implementations", "schema", "compliance"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git", "dist", "__pycache__"))
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.islink(q):
                    continue
                h.update(q.encode() + b"\0")
                try:
                    h.update(open(q, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()

def refresh():
    """cargo decides by modification time; the contents decide here. Call under Lock."""
    stamp = os.path.join(BUILD, "stamp")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        for sub in ("target",):
            t = os.path.join(BUILD, sub)
            for prof in ("debug", "release"):
                fp = os.path.join(t, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if re.match(r"(styx|facet-styx|serde_styx|vcore|vembed|vtool|vext)", d):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(now)

def sh(cmd, timeout, cwd=None, **kw):
    """Run a build step; Undecided if it fails."""
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env(**kw), text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Undecided(f"{cmd} took more than {timeout} s")
    if p.returncode:
        raise Undecided(f"{cmd} failed ({p.returncode}):\n{p.stdout[-4000:]}")
    return p.stdout

WS = os.path.join(REPO, "target", "debug")

def workspace():
    """Build /repo's workspace as its own build script does, in its own target directory (ignored by git), so that
    what that script compiled of other people's crates is used. Our crates are always looked at again."""
    with Lock():
        fp = os.path.join(WS, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(styx|facet-styx|serde_styx)", d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        sh(["cargo", "build", "--workspace", "--all-features", "--offline", "--locked"], 850, cwd=REPO, CARGO_TARGET_DIR=os.path.join(REPO, "target"),
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    return WS

class Scratch:
    """A directory of our own under .build, removed at the end."""
    def __init__(self, name):
        self.path = os.path.join(BUILD, f"{name}-{os.getpid()}")
    def __enter__(self):
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        return self.path
    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

def limit(mem_gb=None, cpu=None, core=False):
    def f():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if not core:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

class Findings:
    """known-findings.txt: 'known: property=Cxx id=NAME text' and 'fixed: ...' lines."""
    def __init__(self, prop):
        self.known = {}
        try:
            for l in open(os.path.join(VERIF, "known-findings.txt")):
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
                if m and m[1] == prop:
                    self.known[m[2]] = m[3].strip()
        except FileNotFoundError:
            pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.findings = Findings(prop)
        self.violations = []      # (sig, msg, replay dict)
        self.nviol = 0
        self.evaluations = 0
        self.distinct = 0
        self.keys = set()
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.counters = {}
        self.assumptions = []
        self.must = []
        self.wall0 = None
        self.seen_known = set()
    # -- recording
    def elapsed(self):
        return time.time() - self.t0
    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n
    def eval(self, key=None):
        self.evaluations += 1
        if key is not None:
            self.keys.add(hashlib.blake2b(key if isinstance(key, bytes) else str(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, ensure_ascii=False)[:1500])
    def fail(self, sig, msg, **replay):
        self.nviol += 1
        if sum(1 for v in self.violations if v[0] == sig) < 3 and len(self.violations) < 30:
            self.violations.append((sig, msg, replay))
    def probe(self, pid, fails, msg, **replay):
        """A deterministic probe of a recorded finding."""
        self.count("probes")
        if not fails:
            return
        if pid in self.findings.known:
            if pid not in self.seen_known:
                self.seen_known.add(pid)
                print(f"KNOWN-FINDING: property={self.prop} {pid}: {self.findings.known[pid]}")
        else:
            self.fail("probe:" + pid, msg, **replay)
    # -- verdict
    def finish(self):
        missing = [m for m in self.must if not self.counters.get(m)]
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, (sig, msg, replay) in enumerate(self.violations):
            name = os.path.join(d, f"{self.prop}-{re.sub(r'[^A-Za-z0-9]+', '_', sig)[:50]}-{i}.json")
            with open(name, "w") as f:
                json.dump({"property": self.prop, "signature": sig, "message": msg, "seed": self.seed, "tier": self.tier, **replay}, f, indent=1, ensure_ascii=True, default=str)
            if sig not in seen and len(seen) < 8:
                seen.add(sig)
                print(f"VIOLATION property={self.prop} replay={name}")
                print(f"  {sig}: {msg[:600]}")
        if self.evaluations == 0 and not self.violations:
            print(f"UNDECIDED property={self.prop}: nothing was observed")
            return 2
        distinct = max(self.distinct, len(self.keys)) if not self.distinct else self.distinct + len(self.keys)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": distinct, "rule": self.rule,
                           "samples": self.samples[:6] or ["none"], "observed": dict(sorted(self.counters.items())), **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        if self.violations:
            return 1
        if missing:
            print(f"UNDECIDED property={self.prop}: the run never observed {missing}")
            return 2
        print(f"{self.prop}: held on {self.evaluations} executions ({distinct} distinct), {ev['wall_s']} s")
        return 0
