"""fixed.py PID <grep>: records the fix commits whose subject contains <grep> and that are not listed yet"""
import sys, subprocess, json, os
f = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
raw = open(f).read(); have = json.loads(raw)["fixed"]
log = subprocess.run("git -C /repo log --reverse --format='%h %s'", shell=True, capture_output=True, text=True).stdout.strip().split("\n")
pend = [l.split(" ", 1) for l in log if l.split(" ", 1)[1].startswith("fix:")]
pend = [(h, m[5:]) for h, m in pend if not any(f" {h} " in x for x in have)]
if len(sys.argv) < 3:
    for h, m in pend: print(h, m)
    sys.exit()
pid = sys.argv[1]
for h, m in pend:
    if any(g in m for g in sys.argv[2:]):
        have.append(f"fixed: property={pid} {h} {m}"); print(have[-1])
d = json.loads(raw); d["fixed"] = have
open(f, "w").write(json.dumps(d, indent=1))
