#!/opt/venv/bin/python
"""writes DESIGN.md from design_head.md, the specification, the check modules, seeded/ and design_tail.md"""
import glob, importlib, json, os, sys
sys.path[:0] = ['/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(ROOT, f)).read()
P = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
M = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
out = [rd("tools/design_head.md")]
for p in P:
    fn = glob.glob(os.path.join(ROOT, "checks", p["id"].lower() + "_*.py"))[0]
    mod = importlib.import_module("checks." + os.path.basename(fn)[:-3]); v = vars(mod)
    def cs(c):
        if len(c) > 3 and c[2] is not None: return f"{c[0]} {c[2]}/{c[3]}"
        return str(c[0])
    cases = ", ".join(cs(c) for c in v.get("CASES", []))
    if v.get("DIRECTED"): cases += "; directed: " + ", ".join(c[0] for c in v["DIRECTED"])
    out.append(f"""### {p['id']} {p['title']}

{p['statement']}

* **Decided by** {M[p['id']]['technique']}; code in `checks/{os.path.basename(fn)}`.
* **Quantified over** {p['quantifier']['text']}. **Why tests cannot settle it**: {p['why_tests_cant']}.
* **Workload**: {v['RULE']}.
* **Cases** (quick/thorough): {cases}.
* **Monitors that have to fire**: {', '.join(v['REQUIRED'])}.
* **Assumptions and bounds**: {'; '.join(v['ASSUME']) or 'none'}.
""")
out.append("## 4. Planted bugs\n\nEach is kept in `seeded/<id>/` with a demonstration. *Caught by* lists the check of its property unless noted; all were confirmed against the tests of the repository.\n\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n")
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    note = m.get("caught", "yes")
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {note} |".replace("\n", " "))
out[-1] += "\n".join(rows) + "\n"
out.append(rd("tools/design_tail.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
