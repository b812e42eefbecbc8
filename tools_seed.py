"""Make and validate planted bugs (development tool; no check uses it).

    tools_seed.py make            write /verif/seeded/<id>/ from tools_seed_specs.py
    tools_seed.py test [ids...]   in /repo: apply, run the tests, the demo and the check; undo
"""
import json, os, subprocess, sys, shutil, difflib

ROOT = "/verif/seeded"
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
. /opt/vp/env.sh
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def specs():
    ns = {}
    exec(open("/verif/tools_seed_specs.py").read(), ns)
    return ns["SEEDS"]


def make():
    for s in specs():
        d = f"{ROOT}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        out = ""
        by = {}
        for f, old, new in s["edits"]:
            p = f"src/mpllayout/{f}"
            t = by.get(p) or open("/repo/" + p).read()
            assert t.count(old) == 1, (s["id"], t.count(old), old)
            by[p] = t.replace(old, new)
        for p, t in by.items():
            a = open("/repo/" + p).read()
            out += "".join(difflib.unified_diff(a.splitlines(True), t.splitlines(True),
                                                "a/" + p, "b/" + p))
        open(d + "/patch.diff", "w").write(out)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def test(ids, tests=True):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or None
    for s in specs():
        if ids and s["id"] not in ids:
            continue
        d = f"{ROOT}/{s['id']}"
        prop = s["property"]
        r0 = sh(f"cd /repo && bash {d}/demo.sh")
        a = sh(f"git -C /repo apply {d}/patch.diff")
        try:
            t = "-"
            if tests:
                sh("bash /opt/vp/test.sh /tmp/seed_o.json")
                t = sh("python3 /tmp/cmp.py /tmp/seed_o.json").stdout.strip()
            r1 = sh(f"cd /repo && bash {d}/demo.sh")
            c = sh(f"cd /verif && ./check {prop}")
        finally:
            sh("git -C /repo checkout -- .")
        viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(s["id"], "apply", a.returncode, "| tests", t, "| demo", r0.returncode, "->",
              r1.returncode, "| check", c.returncode, viol[:1], flush=True)
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-800:])
        if c.returncode not in (1,):
            print("   ", c.stdout.strip().splitlines()[-3:], c.stderr[-300:])


if sys.argv[1] == "make":
    make()
elif sys.argv[1] == "test":
    test([x for x in sys.argv[2:] if not x.startswith("-")], "--notests" not in sys.argv)
