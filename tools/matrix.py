"""Runs the checks against planted bugs (own check only, or every check with --all) and against the reverted fixes (--fixes).
usage: matrix.py [--all] [--fixes] [id ...]"""
import os, re, shutil, subprocess, sys, time, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 26)]


def tree(name, patch=None, revert=None):
    w = "/tmp/seedw/m-" + name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    if patch:
        subprocess.run(["git", "apply", "--whitespace=nowarn", patch], cwd=w, check=True)
    if revert:
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", revert], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(name, "revert conflicts:", r.stdout[-300:])
            return None
    return w


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    v = "/tmp/refv%d" % os.getpid()
    os.makedirs(v)
    for x in ("pysa", "spec", "check.py", "KNOWN_FINDINGS.txt"):
        subprocess.run(["cp", "-a", os.path.join(VERIF, x), v], check=True)
    jobs = []
    if "--fixes" in sys.argv:
        for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
            m = re.match(r"fixed: property=(C\d\d) ([0-9a-f]{7,40}) (.*)", l)
            if m and (not args or m.group(2)[:7] in args):
                jobs.append(("fix-" + m.group(2)[:7], m.group(1), None, m.group(2), m.group(3)))
    else:
        for d in sorted(os.listdir(VERIF + "/seeded")):
            if args and d not in args:
                continue
            meta = json.load(open("%s/seeded/%s/meta.json" % (VERIF, d)))
            jobs.append((d, meta["property"], "%s/seeded/%s/patch.diff" % (VERIF, d), None, ""))
    for name, prop, patch, rev, note in jobs:
        w = tree(name, patch, rev)
        if not w:
            continue
        out = []
        for p in (ALL if "--all" in sys.argv else [prop]):
            t = time.time()
            r = subprocess.run(["python3-vt", "check.py", p], cwd=v, env=dict(os.environ, PYSOLAR_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
            und = sum(l.startswith("UNDEC") for l in r.stdout.splitlines())
            if hit or p == prop or r.returncode:
                out.append("%s%s(%.0fs%s)" % (p, "" if hit else " MISSED" if p == prop else " rc=%d" % r.returncode, time.time() - t, ", %d undecided" % und if und else ""))
        print(name, prop, "|", " ".join(out), "|", note[:80], flush=True)
        shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)


main()
