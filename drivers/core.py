"""Checks that run in the Rust harness (harness/core)."""
import json, os, signal, struct, subprocess, tempfile, time
from .common import *

HANG = 25        # seconds on one case before it is looked at
ALONE_CPU = 60   # CPU seconds one case may use on its own

TYPED = {"C01", "C05", "C07"} | {f"C{i:02d}" for i in range(13, 19)} | {"C23", "C38"}

def build(typed=True, wasm=False):
    """The harness; without the typed interfaces (and their many dependencies) where they are not needed."""
    what = ["--bin", "vcore"] if typed else ["--no-default-features", "--bin", "vlight"]
    if wasm:
        what = ["--no-default-features", "--features", "wasm", "--bin", "vwasm"]
    with Lock():
        refresh()
        sh(["cargo", "build", "--offline", "--locked"] + what, 800, cwd=os.path.join(VERIF, "harness/core"))
    return os.path.join(TARGET, "debug", what[-1])

def generate(ctx, what, n, seed=None):
    """Documents with what is known about them (harness/core/src/checks/export.rs)."""
    exe = os.path.join(TARGET, "debug", "vlight")
    p = subprocess.run([exe, "gen", what, "--n", str(n), "--seed", str(ctx.seed if seed is None else seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=env())
    if p.returncode:
        raise Undecided(f"generating {what}: {p.stderr[-500:]!r}")
    return [json.loads(l) for l in p.stdout.split(b"\n") if l.strip()]

def slots(path, jobs):
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    out = []
    for j in range(min(jobs, len(b) // 32)):
        si, case, ms = struct.unpack_from("<QQQ", b, 32 * j)
        if si:
            out.append((si - 1, case, ms))
    return out

def alone(ctx, exe, stream, case):
    """Run one case on its own. Returns (outcome, report or None)."""
    rep = os.path.join(BUILD, f"one-{ctx.prop}-{os.getpid()}.json")
    if os.path.exists(rep):
        os.remove(rep)
    cmd = [exe, "one", ctx.prop, "--stream", stream, "--case", str(case), "--seed", str(ctx.seed), "--tier", ctx.tier, "--report", rep]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600, preexec_fn=limit(8, ALONE_CPU), env=env())
    except subprocess.TimeoutExpired:
        return "wall", None, cmd
    if p.returncode == -signal.SIGXCPU:
        return f"did not finish within {ALONE_CPU} s of CPU time", None, cmd
    if p.returncode:
        return f"the process died ({p.returncode}): {p.stderr[-600:].decode(errors='replace')}", None, cmd
    r = json.load(open(rep))
    os.remove(rep)
    return "ok", r, cmd

def run(ctx):
    exe = build(ctx.prop in TYPED, ctx.prop == "C39")
    jobs = 8
    secs = 540 if ctx.thorough else 60
    prog = os.path.join(BUILD, f"progress-{ctx.prop}-{os.getpid()}")
    rep = os.path.join(BUILD, f"report-{ctx.prop}-{os.getpid()}.json")
    cmd = [exe, "run", ctx.prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--secs", str(secs), "--jobs", str(jobs), "--progress", prog, "--report", rep]
    names = json.loads(subprocess.run([exe, "streams", ctx.prop], stdout=subprocess.PIPE, env=env(), check=True).stdout)
    t0 = time.time()
    err = open(os.path.join(BUILD, f"stderr-{ctx.prop}"), "w+b")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limit(24), env=env())
    stuck = None
    while p.poll() is None:
        time.sleep(0.2)
        now = (time.time() - t0) * 1000
        for si, case, ms in slots(prog, jobs):
            if now - ms > HANG * 1000:
                stuck = (si, case)
        if stuck:
            p.kill()
            p.wait()
            break
        if time.time() - t0 > secs + 120:
            p.kill()
            p.wait()
            raise Undecided("the run did not end")
    if stuck:
        what, r, c = alone(ctx, exe, names[stuck[0]], stuck[1])
        if what.startswith("did not finish"):
            ctx.fail("hang", f"stream {names[stuck[0]]} case {stuck[1]} {what}", cmd=c)
            ctx.evaluations = max(ctx.evaluations, 1)
            return
        raise Undecided(f"case {stuck} took more than {HANG} s but ends on its own: {what}")
    if p.returncode:
        err.seek(0)
        tail = err.read()[-800:].decode(errors="replace")
        for si, case, ms in slots(prog, jobs):
            what, r, c = alone(ctx, exe, names[si], case)
            if what != "ok" and what != "wall":
                ctx.fail("crash" if not what.startswith("did") else "hang", f"stream {names[si]} case {case}: {what}", cmd=c)
                ctx.evaluations = max(ctx.evaluations, 1)
                return
        raise Undecided(f"the harness died ({p.returncode}) and no single case repeats it: {tail}")
    r = json.load(open(rep))
    for f in (prog, rep):
        os.remove(f)
    ctx.evaluations, ctx.distinct, ctx.rule = r["evaluations"], r["distinct"], r["rule"]
    ctx.samples = r["samples"]
    ctx.counters.update(r["counters"])
    ctx.extra["cut_by_time"] = r["cut_by_time"]
    ctx.extra["run_s"] = round(r["wall"], 2)
    for k in r.get("known", []):
        ctx.probe(k["id"], k["fails"], k["msg"], input=k["input"])
    for v in r["violations"]:
        ctx.fail(v["sig"], v["msg"], input=v["input"], stream=v["stream"], case=v["case"],
                 cmd=[exe, "one", ctx.prop, "--stream", v["stream"], "--case", str(v["case"]), "--seed", str(ctx.seed), "--tier", ctx.tier])
    ctx.nviol = r["nviolations"] + sum(1 for v in ctx.violations if v[0].startswith("probe:"))
    if r["missing"]:
        ctx.must += r["missing"]
