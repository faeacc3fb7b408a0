"""Applies behaviour-preserving edits to a scratch copy, runs the tests and every check: all must stay quiet.
usage: refac.py BATCH.py [id ...] [C01 C02 ...] [--near]     BATCH.py defines R = [dict(id, edits=[(file, old, new)])]"""
import os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    chosen = [a for a in args if re.fullmatch(r"C\d\d", a)]
    ids = [a for a in args if a not in chosen]
    v = "/tmp/refv%d" % os.getpid()            # the analysis as it is now, so that editing may go on meanwhile
    os.makedirs(v)
    for x in ("pysa", "spec", "check.py", "KNOWN_FINDINGS.txt"):
        subprocess.run(["cp", "-a", os.path.join(VERIF, x), v], check=True)
    for s in ns["R"]:
        if ids and s["id"] not in ids:
            continue
        w = "/tmp/refw/%d-" % os.getpid() + s["id"]
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs("/tmp/refw", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        bad = False
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p, encoding="utf-8", newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                print(s["id"], "edit of %s matches %d times: %r" % (f, t.count(old), old[:70]))
                bad = True
                continue
            open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
        if bad:
            continue
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYSOLAR_REPO=w, TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(s["id"], "tests:", r.stdout.strip().splitlines()[-1], flush=True)
        props = chosen or ("--near" in sys.argv and s.get("near")) or ["C%02d" % i for i in range(1, 26)]
        for p in props:
            t = time.time()
            r = subprocess.run(["python3-vt", "check.py", p], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            und = [l for l in r.stdout.splitlines() if l.startswith("UNDEC")]
            if r.returncode or und:
                print("   %s rc=%d %.0fs %d undecided" % (p, r.returncode, time.time() - t, len(und)))
                for l in ([l for l in r.stdout.splitlines() if l.startswith("  ")][:3] + und[:3]):
                    print("       ", l[:330], flush=True)
        print(s["id"], "done", flush=True)
        shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)


main()
