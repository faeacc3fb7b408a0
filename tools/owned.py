"""Lists planted bugs none of whose changed lines belong to the original repository (they would not count)."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
blame = {}
ROOTS = subprocess.run(["git", "rev-list", "--reverse", "HEAD"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()[:1]
def own(f):
    if f not in blame:
        out = subprocess.run(["git", "blame", "-w", "--line-porcelain", f], cwd="/repo", stdout=subprocess.PIPE, text=True, errors="replace").stdout
        blame[f] = ["original" if l.split()[0] in ROOTS else "verif" for l in out.splitlines() if re.match(r"[0-9a-f]{40} ", l)]
    return blame[f]
authors = {}
for d in sorted(os.listdir(V + "/seeded")):
    f = None; orig = mine = 0
    for l in open("%s/seeded/%s/patch.diff" % (V, d), errors="replace"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            a = own(f)[n]; authors[a] = authors.get(a, 0) + 1
            if a.startswith("verif") : mine += 1
            elif l[1:].strip(): orig += 1
            n += 1
        elif l.startswith("+"): pass
        else: n += 1
    if not orig: print(d, "original lines 0, own", mine)
print(authors)
