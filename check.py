#!/usr/bin/env python3-vt
"""check.py Cxx [--thorough]: decide one property for /repo's current source."""
import ctypes
import os
import pickle
import shutil
import sys
import tempfile
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)
CURRENT = []
WORKERS = max(1, min(8, os.cpu_count() or 1))


def analyse(prop, tier, seed, shard):
    from pysa import report, checks, decide
    from pysa.values import Undecided
    decide.TIER[0] = tier
    decide.SEED[0] = seed
    rep = report.Report(prop, tier, seed)
    rep.shard = shard
    rep.mark = time.time()
    CURRENT.append(rep)
    try:
        checks.CHECKS[prop](rep)
    except Undecided as u:
        rep.undecided("package analysis", u.reason, u.site)
    except report.Enough:
        pass
    except Exception as x:
        traceback.print_exc()
        rep.undecided("analysis of part %d" % shard[0], "internal error: %r" % x)
    checks.stats(rep)
    return rep


def in_thread(f, limit=None, budget=None):
    """run f in a thread with a large stack; an obligation that takes too long is abandoned as undecided"""
    out = []
    t = threading.Thread(target=lambda: out.append(f()))
    t.daemon = True
    t.start()
    t0 = time.time()
    from pysa import report
    while t.is_alive():
        t.join(1.0)
        if not t.is_alive() or not CURRENT:
            continue
        rep, now = CURRENT[0], time.time()
        if budget and now - t0 > budget + 60:
            rep.undecided("remaining obligations", "time budget of %d s used up" % budget)
            return rep
        if budget and now - t0 > budget + 10:
            throw(t, report.Enough)
        elif limit and rep.mark and now - rep.mark > (limit / 3 if rep.viol else limit):
            rep.mark = now
            throw(t, report.OutOfTime)
    return out[0] if out else None


def throw(t, exc):
    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(exc))


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    from pysa import report, checks
    total = report.Report(prop, tier, seed)
    total.explanation = checks.EXPL
    total.assumptions = checks.ASSUMPTIONS
    n = WORKERS if "--serial" not in sys.argv else 1
    tmp = tempfile.mkdtemp(prefix="pysa")
    try:
        pids = {}
        sys.stdout.flush()
        for i in range(n):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    rep = in_thread(lambda: analyse(prop, tier, seed, (i, n)), report.LIMIT[tier], report.BUDGET[tier])
                    if rep is not None:
                        with open(os.path.join(tmp, "%d" % i), "wb") as f:
                            pickle.dump(rep.export(), f)
                        rc = 0
                except BaseException:
                    traceback.print_exc()
                sys.stdout.flush()
                os._exit(rc)
            pids[pid] = i
        while pids:
            pid, st = os.wait()
            i = pids.pop(pid, None)
            if i is None:
                continue
            try:
                with open(os.path.join(tmp, "%d" % i), "rb") as f:
                    total.absorb(pickle.load(f))
            except Exception:
                total.undecided("part %d of the analysis" % i, "worker ended with status %s" % st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return total.finish()


if __name__ == "__main__":
    sys.exit(main())
