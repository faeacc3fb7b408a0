"""Collecting obligations, printing verdicts, writing evidence."""
import json
import os
import sys
import time

from .values import Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def load_known():
    """-> {(property, key): text} of the findings that are recorded, not repaired"""
    out = {}
    for line in open(KNOWN):
        line = line.strip()
        if line.startswith("known: "):
            parts = line[7:].split(" ", 2)
            prop = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            out[(prop, key)] = parts[2]
    return out


class Enough(Exception):
    """stop: violations found and enough time spent, or the time budget is used up"""


class OutOfTime(Undecided):
    """raised into a worker that has spent too long on one obligation"""

    def __init__(self):
        Undecided.__init__(self, "no verdict within %d s" % LIMIT["quick"])


BUDGET = {"quick": 600, "thorough": 3300}
LIMIT = {"quick": 150, "thorough": 900}      # seconds for one obligation


class Report:
    shard = (0, 1)
    _n = 0

    mark = None

    def mine(self):
        """work is dealt out to worker processes in turn"""
        self.clock()
        self._n += 1
        return self._n % self.shard[1] == self.shard[0]

    def clock(self):
        self.mark = time.time()
        t = self.mark - self.t0
        if self.viol and t > 150:
            raise Enough("stopped after the violations found so far")
        if t > BUDGET[self.tier]:
            self.undec.append(dict(obligation="remaining obligations", reason="time budget of %d s used up" % BUDGET[self.tier], site=None))
            raise Enough("time budget")

    def export(self):
        return dict(decided=self.decided, viol=self.viol, known_seen=self.known_seen, undec=self.undec, extra=self.extra)

    def absorb(self, d):
        have = {x[0] for x in self.decided}
        for x in d["decided"]:
            if x[0] not in have:
                have.add(x[0])
                self.decided.append(x)
        for v in d["viol"]:
            self.bad(v["obligation"], v["where"], v["detail"], v["method"])
        for k, l in d["known_seen"].items():
            mine = self.known_seen.setdefault(k, [])
            mine += [x for x in l if x not in mine]
        for u in d["undec"]:
            if u not in self.undec:
                self.undec.append(u)
        for k, v in d["extra"].items():
            self.extra[k] = merge_extra(self.extra.get(k), v, k)

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.decided = []          # (description, method)
        self.viol = []
        self.known_seen = {}
        self.undec = []
        self.extra = {}
        self.assumptions = []
        self.knownfile = load_known()
        self.explanation = ""
        self._vseen = set()

    def ok(self, desc, method):
        self.mark = time.time()
        self.decided.append((desc, method))

    def bad(self, desc, where, detail, method="refuted"):
        self.mark = time.time()
        k = (desc, str(where))
        if k in self._vseen:
            return
        self._vseen.add(k)
        self.viol.append(dict(obligation=desc, where=where, detail=detail, method=method))

    def known(self, key, desc):
        """True if (property, key) is a recorded finding"""
        if (self.prop, key) in self.knownfile:
            self.known_seen.setdefault(key, []).append(desc)
            return True
        return False

    def undecided(self, desc, reason, site=None):
        self.mark = time.time()
        self.undec.append(dict(obligation=desc, reason=str(reason), site=sitestr(site) if site else None))

    def finish(self):
        n = len(self.decided) + len(self.viol) + sum(len(v) for v in self.known_seen.values())
        total = n + len(self.undec)
        methods = {}
        for _, m in self.decided:
            methods[m] = methods.get(m, 0) + 1
        samples = [{"obligation": d, "decided_by": m} for d, m in (self.decided[:3] + self.decided[len(self.decided) // 2:][:3] + self.decided[-2:])]
        cov = dict(explanation=self.explanation, obligations=total, decided=n, undecided=len(self.undec),
                   decided_by_method=methods, samples=samples)
        cov.update(self.extra)
        if self.undec:
            cov["undecided_list"] = self.undec[:40]
        if self.known_seen:
            cov["known_findings"] = {k: v[:20] for k, v in self.known_seen.items()}
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="other", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, v in self.known_seen.items():
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, self.knownfile[(self.prop, k)], k))
        for u in self.undec[:30]:
            print("UNDECIDED %s: %s: %s" % (self.prop, u["obligation"], u["reason"]))
        print("%s: %d obligations, %d decided %s, %d undecided, %d violations, %.1f s" % (
            self.prop, total, n, methods, len(self.undec), len(self.viol), time.time() - self.t0))
        if self.viol:
            path = os.path.join(EVID, self.prop + ".violation.json")
            with open(path, "w") as f:
                json.dump(self.viol, f, indent=1, default=str)
            for v in self.viol[:12]:
                print("  %s: %s: %s" % (v["where"], v["obligation"], v["detail"]))
            if len(self.viol) > 12:
                print("  ... and %d more, see %s" % (len(self.viol) - 12, path))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if total == 0 or n * 2 < total:
            print("%s: no verdict: most obligations could not be decided" % self.prop, file=sys.stderr)
            return 2
        return 0


def merge_extra(a, b, key):
    if a is None:
        return b
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: merge_extra(a.get(k), b.get(k), k) if k in b else a[k] for k in list(a) + [k for k in b if k not in a]}
    if isinstance(a, list) and isinstance(b, list):
        return a + [x for x in b if x not in a]
    if key in ("points", "tested", "graph", "normal", "table", "refuted", "call_sites", "terms", "calls_analysed", "array_calls_analysed", "refusal_calls"):
        return a + b
    return max(a, b) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else a


def sitestr(site):
    if not site:
        return None
    if isinstance(site, str):
        return site
    f, fn, line = site
    i = f.find("pysolar/")
    return "%s:%s in %s" % (f[i:] if i >= 0 else f, line, fn)
