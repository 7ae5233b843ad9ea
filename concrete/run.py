"""Runs the executable contract of a property on the real code.

usage: run.py ID OUT.json [--replay FILE]"""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
warnings.filterwarnings("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


HANG = 120      # seconds after which one evaluation (below a second when the property holds) counts as never ending


class Hang(BaseException):
    pass


def expired(*_):
    signal.alarm(2)     # again, should the code under test swallow it
    raise Hang()


def one(name, fn, pid, seed, i):
    import numpy as np
    from lib import Fail
    rng = np.random.default_rng([seed, i, sum(ord(c) * (k + 1) for k, c in enumerate(pid + name))])
    np.random.seed((seed * 7919 + i) % (2 ** 31))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                signal.signal(signal.SIGALRM, expired)
                signal.alarm(HANG)
                try:
                    r = fn(rng, i)
                finally:
                    signal.alarm(0)
        return None, r
    except Hang:
        signal.alarm(0)
        return "did not end within %d s on a valid input" % HANG, None
    except Fail as e:
        return str(e), None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
        return "raised %s: %s on a valid input (%s)" % (type(e).__name__, str(e)[:300], where), None


def main(argv):
    pid, out = argv[0], argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_CONCRETE_S", "20"))
    res = {"property": pid, "evaluations": 0, "distinct": 0, "failures": [], "scenarios": {}, "samples": [], "error": ""}
    try:
        m = importlib.import_module(pid)
        scen = list(m.SCENARIOS)
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
        res["wall"] = time.time() - t0
        json.dump(res, open(out, "w"))
        return 0
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        fn = dict((n, f) for n, f in scen)[r["scenario"]]
        msg, _ = one(r["scenario"], fn, pid, r["seed"], r["iteration"])
        print("replay of %s/%s iteration %d: %s" % (pid, r["scenario"], r["iteration"], msg or "holds"))
        return 1 if msg else 0
    res["import_s"] = time.time() - t0
    t1 = time.time()
    seen = set()
    mini = getattr(m, "MIN", 3)
    limit = int(os.environ.get("VERIF_CONCRETE_N", "100000"))
    alive = dict(scen)
    i = 0
    while alive and i < limit and (time.time() - t1 < budget or i < mini):
        for name, fn in list(alive.items()):
            if i >= mini and time.time() - t1 >= budget:
                break
            msg, r = one(name, fn, pid, seed, i)
            if r == "done":
                del alive[name]
            res["evaluations"] += 1
            res["scenarios"][name] = res["scenarios"].get(name, 0) + 1
            if r is not None and r != "done":
                seen.add((name, str(r)))
                if len(res["samples"]) < 6 and i < 2:
                    res["samples"].append("%s: %s" % (name, str(r)[:300]))
            if msg:
                key = getattr(m, "FINDING_KEY", lambda n, s: n)(name, msg)
                res["failures"].append({"scenario": name, "iteration": i, "seed": seed, "detail": msg, "key": key})
                del alive[name]
        i += 1
        if len(res["failures"]) >= 5:
            break
    res["distinct"] = len(seen)
    res["wall"] = time.time() - t0
    json.dump(res, open(out, "w"))
    return 0


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)      # a thread the code under test left waiting must not hold the run
