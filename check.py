#!/usr/bin/env python3
"""Run one property's check: check.py PROP [--tier quick|thorough].

Exit 0: held on everything explored.  Exit 1 with VIOLATION lines: broken.
Any other exit: the check could not decide (nothing observed, build failed, tool missing)."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from drivers import common

CORE = {f"C{i:02d}" for i in range(1, 19)} | {"C36", "C37", "C38", "C39"}
MODULES = {"C19": "cli", "C20": "cli", "C21": "cli", "C22": "ffi", "C23": "embed", "C24": "lsp", "C25": "lsp", "C26": "lsp", "C27": "lsp",
           "C28": "impls", "C29": "impls", "C30": "impls", "C31": "treesit", "C32": "treesit", "C33": "gengo", "C34": "ext", "C35": "ext", "C40": "pub"}

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = common.Ctx(prop, tier, seed)
    try:
        if prop in CORE:
            from drivers import core
            core.run(ctx)
        else:
            importlib.import_module("drivers." + MODULES[prop]).run(ctx)
    except common.Undecided as e:
        print(f"UNDECIDED property={prop}: {e}")
        if not ctx.violations:
            sys.exit(2)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            sys.exit(2)
    sys.exit(ctx.finish())

main()
