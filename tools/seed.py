"""Plants a bug in a scratch copy, confirms it (builds, passes the tests, demo tells the trees apart) and stores it under seeded/.
usage: seed.py BATCH.py [id ...] [--nocheck]     BATCH.py defines S = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, re, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\n"


def run(cmd, cwd, env=None, t=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in ns["S"]:
        if ids and s["id"] not in ids:
            continue
        w = "/tmp/seedw/" + s["id"]
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/seedw", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run("git checkout -q -- . && find . -name __pycache__ -prune -exec rm -r {} +", shell=True, cwd=w)
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(HEAD + s["demo"].strip() + "\n")
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        problems = []
        rc, out = run(["bash", d + "/demo.sh"], w)
        if rc:
            problems.append("demo fails on the clean tree: " + out[-400:])
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p, encoding="utf-8", newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                problems.append("edit of %s matches %d times: %r" % (f, t.count(old), old[:60]))
                continue
            open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, check=True).stdout)
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], w)
        if rc:
            problems.append("tests fail: " + out[-500:])
        rc, out = run(["bash", d + "/demo.sh"], w)
        if rc == 0:
            problems.append("demo passes with the patch")
        res = ""
        if "--nocheck" not in sys.argv and not problems:
            t = time.time()
            rc, out = run(["python3-vt", "check.py", s["prop"]], VERIF, {"PYSOLAR_REPO": w}, 1200)
            res = "%s rc=%d %.0fs" % ("CAUGHT" if rc == 1 and "VIOLATION property=%s " % s["prop"] in out else "MISSED", rc, time.time() - t)
            lines = [l for l in out.splitlines() if l.startswith("  ") or l.startswith("UNDEC")]
            res += "\n    " + "\n    ".join(l[:260] for l in lines[:3])
        print(s["id"], s["prop"], "; ".join(problems) or "valid", res, flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
