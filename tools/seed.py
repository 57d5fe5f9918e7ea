"""plants one bug: applies the edits to /repo's working tree, confirms that it builds, passes the tests, that the demo fails with it and
passes without it, records it in /verif/seeded and reports whether the check of its property catches it.   from seed import seed"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
    sh("git -C /repo checkout -- .")


def seed(id, prop, edits, demo, needs, breaks, tests=True, extra=()):
    assert not sh("git -C /repo status --porcelain").stdout, "/repo not clean"
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + demo.strip() + "\n")
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -B -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    out = [id, prop]
    try:
        base = sh(d + "/demo.sh", cwd="/repo")
        for fn, old, new in edits:
            s = open("/repo/" + fn, newline="").read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open("/repo/" + fn, "w", newline="").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        bad = sh(d + "/demo.sh", cwd="/repo")
        out.append(f"demo clean={base.returncode} patched={bad.returncode}")
        if base.returncode: print(base.stdout[-1500:], base.stderr[-1500:])
        if not bad.returncode or "SyntaxError" in bad.stderr: print(bad.stdout[-1500:], bad.stderr[-500:])
        b = sh("bash /opt/vp/build.sh")
        out.append("build ok" if b.returncode == 0 else "BUILD FAILS " + b.stderr[-300:])
        for i in (prop,) + tuple(extra):
            c = sh(f"VERIF_SEED=1 ./check.sh {i} quick", cwd=ROOT)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{i}: rc={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {len(v)} {v[0][:150] if v else ''}")
        if tests:
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            out.append("tests: " + t.stdout.strip().splitlines()[-1])
    finally:
        undo()
    print(" | ".join(out), flush=True)
