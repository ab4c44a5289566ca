"""plant.py SPEC.py...  Apply a planted bug to /repo, confirm it (build, stable tests, demo), run the property's check, undo.

A SPEC is Python defining ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source).
plant.py --recheck [ID...]  applies the stored patches again and only runs demo + the property's check.
"""
import json, os, subprocess, sys
SEED = "/verif/seeded"
REPO = os.environ.get("RV_REPO", "/repo")      # a scratch copy of /repo may be used instead
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def clean():
    sh(f"git -C {REPO} checkout -- .")


def stable():
    o = "/tmp/plant_out.json"
    sh(f"sed s#/repo#{REPO}#g /opt/vp/test.sh > /tmp/plant_test.sh; PYTHONPATH={REPO} bash /tmp/plant_test.sh {o}")
    got = set(json.load(open(o))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
    return [t for t in base if t not in got]


def check(prop):
    c = sh(f"cd /verif && VERIF_SEED=1 ./check {prop}")
    return c.returncode, [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")][:1], c.stdout


def one(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"{SEED}/{g['ID']}"
    clean()
    for f, old, new in g["EDITS"]:
        p = f"{REPO}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(g["ID"], "EDIT does not match once:", s.count(old), repr(old[:60]))
            clean()
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {REPO} diff").stdout
    clean()
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write(g["DEMO"])
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    demo = f"cd {REPO} && bash {d}/demo.sh"
    a = sh(demo)
    if a.returncode:
        print(g["ID"], "REJECT demo fails on the unchanged tree:", a.stderr[-400:])
        sh(f"rm -r {d}")
        return
    sh(f"git -C {REPO} apply {d}/patch.diff")
    try:
        b = sh(demo)
        if not b.returncode:
            print(g["ID"], "REJECT demo passes with the patch")
            sh(f"rm -r {d}")
            return
        bad = stable()
        if bad:
            print(g["ID"], "REJECT breaks tests:", bad[:3])
            sh(f"rm -r {d}")
            return
        rc, v, out = check(g["PROP"])
        print(g["ID"], g["PROP"], "demo:", (b.stderr.strip().splitlines() or ["?"])[-1][:100], "| check rc", rc, "CAUGHT" if rc == 1 and v else "MISSED")
    finally:
        clean()


def recheck(ids):
    for i in ids or sorted(os.listdir(SEED)):
        d = f"{SEED}/{i}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        clean()
        demo = f"cd {REPO} && bash {d}/demo.sh"
        a = sh(demo).returncode
        ap = sh(f"git -C {REPO} apply {d}/patch.diff")
        try:
            b = sh(demo).returncode
            rc, v, out = check(prop)
            print(i, prop, "apply", ap.returncode, "demo", a, b, "check rc", rc, "CAUGHT" if rc == 1 and v else "MISSED", flush=True)
        finally:
            clean()


if sys.argv[1] == "--recheck":
    recheck(sys.argv[2:])
else:
    for s in sys.argv[1:]:
        one(s)
