"""setup_cmd: confirm that the tools the checks use are there. Each check builds what it needs itself."""
import shutil, sys
need = ["cargo", "rustc", "cc", "python3"]
missing = [n for n in need if not shutil.which(n) and not shutil.which("/root/.cargo/bin/" + n)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
