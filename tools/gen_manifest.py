"""Write MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NOTE = "Held on the executions of one run, which are counted in the evidence; says nothing about inputs the generators do not reach. Trusts "
T = json.load(open(f"{V}/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = T.get(i)
    if c is None or "na" in c:
        na.append({"property": i, "reason": (c or {}).get("na", "no check built yet")})
        continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "exploration", "level_note": NOTE + c["trusts"] + "."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds what it needs from /repo's working tree into /verif/.build and decides by monitors over executions. No hooks in /repo are needed: everything monitored is public."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
