#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, observe, technique, note, over=("inputs", "histories")):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


SIM = "carbon/simulators/carbon_simulator.py"
ORD = "carbon/order.py"
BASE_NOTE = ("Held on every execution the monitors observed in this run (random + directed hostile workloads on the real code); no claim beyond "
             "those. Trusts the independently written oracle in /verif/checks and /verif/vlib, and the tolerances stated in the evidence file. ")
exec(open(os.path.join(ROOT, "tools", "spec_data.py")).read())


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(ROOT, "checks", "p[0-9][0-9]_*.py"))}
    checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                   level_note=BASE_NOTE + p["note"]) for p in P if p["id"] in have]
    M = dict(version=1, setup_cmd="/opt/venv/bin/python -B -W ignore tools/selftest.py",
             hooks=dict(guard="none: no hook was needed, every observation is made through public entry points",
                        enable="nothing to enable; checks import the code from /repo's working tree", source_commits=[]),
             checks=checks, not_applicable=NA,
             notes="sanitizers and race detectors do not apply: the code is single-threaded pure Python without native code of its own (see DESIGN.md)")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(M, f, indent=1)
        f.write("\n")
    missing = [i for i in ids if i not in have]
    print(len(P), "properties;", len(checks), "checks; without check:", missing, "check without property:", sorted(have - set(ids)))


main()
