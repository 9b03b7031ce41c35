"""C23: images built in the core harness, and a real program that embeds schemas and reads its own file."""
import json, os, subprocess
from . import core
from .common import *

def own(ctx):
    d = os.path.join(VERIF, "harness/embed")
    with Lock():
        refresh()
        sh(["cargo", "build", "--offline", "--locked", "-p", "styx-embed"], 800, cwd=d)
        cmd = ["cargo", "build", "--offline", "--locked", "--bin", "vembed"]
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, env=env(), text=True, errors="replace")
    ctx.must.append("own")
    if p.returncode:
        # the macros are built: what fails is the program they expand into
        ctx.eval("own")
        return ctx.fail("embed:build", "a program that embeds valid schemas does not build:\n" + p.stdout[-3000:], cmd=cmd)
    p = subprocess.run([os.path.join(TARGET, "debug", "vembed")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env())
    ctx.eval("own")
    try:
        j = json.loads(p.stdout)
    except ValueError:
        return ctx.fail("embed:own", f"reading the program's own schemas died ({p.returncode}): {p.stdout[-500:]!r}")
    ctx.count("own", len(j["want"]))
    if j["want"] != j["got"]:
        lost = [w for w in j["want"] if w not in j["got"]]
        ctx.fail("embed:own", f"{len(j['want'])} schemas embedded; missing {lost!r:.600}; got {j['got']!r:.600}")

def run(ctx):
    core.run(ctx)
    own(ctx)
