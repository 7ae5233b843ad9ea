"""Runs the proof part of a check: kernel contracts first, then the public obligations.

A property module (props/<ID>.py) defines CASES = [(name, body)], and optionally KERNELS (contracts to
prove up front), TIMEOUT_MS and EXTRA (thorough-tier cases)."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import kernel, obl, solve, sums
from .sym import Unsupported, PyExc

REPO = os.environ.get("VERIF_REPO", "/repo")


def contracts_table():
    out = {}
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py") and not fn.startswith("_"):
            out.update(importlib.import_module("contracts." + fn[:-3]).CONTRACTS)
    return out


def rows(S):
    return [dict(S.goals[g].row()) for g in S.order]


def _kernel_job(q):
    t0 = time.time()
    solve.reset_stats()
    R = kernel.Registry(TABLE, REPO)
    ok = R.get(q) is not None
    S = R.sessions.get(q)
    out = {"q": q, "ok": ok, "rows": [], "error": "", "wall": time.time() - t0}
    if isinstance(S, obl.Session):
        out["rows"] = rows(S)
        out["executed"] = sorted(S.executed)
        out["paths"] = S.paths
    else:
        out["error"] = "%s: %s" % (type(S).__name__, str(S)[:300])
    out["solver"] = dict(solve.STATS)
    return out


def _case_job(a):
    mod, k, pre, slack = a
    t0 = time.time()
    solve.reset_stats()
    m = importlib.import_module("props." + mod)
    name, body = all_cases(m)[k]
    S = obl.Session(REPO, getattr(m, "TIMEOUT_MS", 8000))
    solve.SLACK = slack
    R = kernel.Registry(TABLE, REPO)
    R.ok.update(pre)
    S.lookup = R
    err = ""
    try:
        S.run(name, body, getattr(m, "MAX_PATHS", 400))
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e) + "\n" + traceback.format_exc()[-1500:]
        S.case_name = name
        S.goal("executable").add(obl.UNSUPPORTED, "the verifier stopped: " + err[:500], 0)
    out = {"case": name, "rows": rows(S), "executed": sorted(S.executed), "used": sorted(S.used),
           "paths": S.paths, "wall": time.time() - t0, "error": err, "solver": dict(solve.STATS),
           "late": {q: _sess(R, q) for q in R.sessions}, "trusted": sorted(S.trusted)}
    return out


def _sess(R, q):
    S = R.sessions[q]
    return {"q": q, "ok": R.ok.get(q, False), "rows": rows(S) if isinstance(S, obl.Session) else [],
            "error": "" if isinstance(S, obl.Session) else str(S)[:300]}


def all_cases(m):
    cs = list(m.CASES)
    if os.environ.get("VERIF_TIER") == "thorough":
        cs += list(getattr(m, "EXTRA", []))
    return cs


TABLE = {}


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def main(argv):
    pid, out = argv[0], argv[1]
    nproc = int(os.environ.get("VERIF_PROC", "6"))
    budget = float(os.environ.get("VERIF_PROOF_S", "600"))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    TABLE.update(contracts_table())
    m = importlib.import_module("props." + pid)
    kernels = list(getattr(m, "KERNELS", []))
    cases = all_cases(m)
    pre, krows, crows = {}, [], []
    timed = []
    with mp.get_context("fork").Pool(nproc, initializer=_init, maxtasksperchild=1) as pool:
        js = [(q, pool.apply_async(_kernel_job, (q,))) for q in kernels]
        for q, j in js:
            try:
                r = j.get(max(1, budget - (time.time() - t0)))
            except mp.TimeoutError:
                timed.append("contract " + q)
                pre[q] = False
                continue
            krows.append(r)
            pre[q] = r["ok"]
        js = [(cases[k][0], pool.apply_async(_case_job, ((pid, k, pre, 1),))) for k in range(len(cases))]
        for nm, j in js:
            try:
                crows.append(j.get(max(1, budget - (time.time() - t0))))
            except mp.TimeoutError:
                timed.append(nm)
        # an obligation the solver could not decide (a loaded machine, say) gets a second, longer try
        again = [i for i, c in enumerate(crows) if any(r["status"] not in ("proved", "unsupported") for r in c["rows"])]
        retried = []
        if again and len(again) <= 16:
            names = {c[0]: k for k, c in enumerate(cases)}
            limit = time.time() + min(200, max(0, budget - (time.time() - t0)))
            js = [(i, pool.apply_async(_case_job, ((pid, names[crows[i]["case"]], pre, 4),))) for i in again]
            for i, j in js:
                try:
                    r = j.get(max(1, limit - time.time()))
                except mp.TimeoutError:
                    continue
                if sum(x["status"] != "proved" for x in r["rows"]) < sum(x["status"] != "proved" for x in crows[i]["rows"]):
                    retried.append(r["case"])
                    crows[i] = r
        pool.terminate()
    # contracts proved late
    seen = set(pre)
    for c in crows:
        for q, r in c["late"].items():
            if q not in seen:
                seen.add(q)
                krows.append(dict(r, executed=[], wall=0, solver={}))
    res = {"property": pid, "kernels": krows, "cases": crows, "timed_out": timed, "retried": retried, "wall": time.time() - t0}
    with open(out, "w") as f:
        json.dump(res, f)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
