#!/usr/bin/env python3
"""Decides one property on /repo's current source.

  check.py ID            exit 0: every obligation discharged and no input found that breaks it
                         exit 1: a line VIOLATION property=ID replay=PATH
The proof (pyvc, under python3-vt) runs beside the executable contract (the compiled code, under
/opt/venv/bin/python), which validates what the proof trusts and supplies failing inputs."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"

TRUSTED = [
    "pyvc (the verification condition generator of this framework): its reading of Python and of numba's subset, checked by the executable contract on the compiled code",
    "numpy, scipy.fft and the standard library behave as modelled in pyvc/npmodel.py (assumed contracts of dependencies)",
    "the discrete Fourier transform is modelled by its definition (circular sums), not by the library's algorithm",
    "numba compiles the verified source faithfully, including typing, broadcasting of generalised ufuncs and their threading",
    "z3 and cvc5 answer unsat only for unsatisfiable formulas",
]
ARITH = [
    "floating point numbers are treated as real numbers (NaN, overflow and rounding are outside the proof; the executable contract compares with a tolerance)",
    "machine integers are treated as mathematical integers",
]


def env_for(tmp, extra=None):
    e = dict(os.environ)
    e.update({"HOME": tmp + "/home", "NUMBA_CACHE_DIR": tmp + "/numba", "PYTHONPYCACHEPREFIX": tmp + "/pyc",
              "MPLCONFIGDIR": tmp + "/mpl", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
              "QT_QPA_PLATFORM": "offscreen", "LC_ALL": "C.UTF-8", "TMPDIR": tmp + "/tmp", "NUMBA_OPT": "0",
              "NUMBA_NUM_THREADS": str(os.cpu_count() or 1), "VERIF_REPO": REPO, "OMP_NUM_THREADS": "2"})
    e.pop("PYTHONPATH", None)
    e.update(extra or {})
    return e


def known_findings():
    out = {"open": [], "fixed": []}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split(" | ")[0].split() if "=" in x)
                d["text"] = l.split(" | ", 1)[1] if " | " in l else l
                out["open"].append(d)
            elif l.startswith("fixed:"):
                out["fixed"].append(l)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    for d in ("home", "numba", "pyc", "mpl", "tmp"):
        os.mkdir(os.path.join(tmp, d))
    try:
        return run(pid, tier, seed, thorough, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def concrete(pid, tmp, seed, secs, tag):
    out = os.path.join(tmp, "c%s.json" % tag)
    log = open(os.path.join(tmp, "c%s.log" % tag), "w")
    p = subprocess.Popen([PY, os.path.join(HERE, "concrete", "run.py"), pid, out], cwd=tmp, stdout=log, stderr=log,
                         env=env_for(tmp, {"VERIF_SEED": str(seed), "VERIF_CONCRETE_S": str(secs)}))
    return p, out, log.name


def load(p):
    try:
        return json.load(open(p))
    except Exception:
        return None


def run(pid, tier, seed, thorough, t0, tmp):
    has_proof = os.path.exists(os.path.join(HERE, "props", pid + ".py"))
    has_conc = os.path.exists(os.path.join(HERE, "concrete", pid + ".py"))
    pout = os.path.join(tmp, "p.json")
    plog = os.path.join(tmp, "p.log")
    pp = None
    if has_proof:
        cmd = [VT, "-m", "pyvc.driver", pid, pout]
        pp = subprocess.Popen(cmd, cwd=HERE, stdout=open(plog, "w"), stderr=subprocess.STDOUT,
                              env=env_for(tmp, {"VERIF_PROOF_S": "3600" if thorough else "420", "PYTHONPATH": HERE}))
    cp = None
    if has_conc:
        cp = concrete(pid, tmp, seed, 240 if thorough else 12, "0")
    if pp:
        pp.wait()
    proof = load(pout) if has_proof else None
    if cp:
        try:
            cp[0].wait(timeout=3000 if thorough else 600)
        except subprocess.TimeoutExpired:
            cp[0].kill()
    conc = load(cp[1]) if cp else None

    goals = []
    if proof:
        for r in proof["kernels"]:
            for g in r["rows"]:
                goals.append(dict(g, kernel=r["q"], used=r["ok"]))
        for c in proof["cases"]:
            for g in c["rows"]:
                goals.append(dict(g, kernel=None, used=True))
    # a kernel contract that is not proved is not used: its callers are verified through its body
    public = [g for g in goals if g["kernel"] is None]
    kern = [g for g in goals if g["kernel"] is not None]
    bad = [g for g in public if g["status"] in ("failed", "unknown")]
    unsup = [g for g in public if g["status"] == "unsupported"]
    dropped = sorted(set(g["kernel"] for g in kern if not g["used"]))
    late = proof["timed_out"] if proof else []
    problems = []
    if has_proof and (proof is None or not public):
        problems.append("the proof run produced no obligations: " + tail(plog))
    if has_conc and (conc is None or conc.get("error")):
        problems.append("the executable contract did not run: " + ((conc or {}).get("error") or tail(cp[2])))
    fails = list(conc["failures"]) if conc else []
    extra = None
    if not fails and bad and has_conc and not problems:
        # look longer for an input
        p, out2, _ = concrete(pid, tmp, seed + 1, 600 if thorough else 45, "1")
        p.wait()
        extra = load(out2)
        fails = list(extra["failures"]) if extra else []
    kf = [k for k in known_findings()["open"] if k.get("property") == pid]
    shown = set()
    keep = []
    for f in fails:
        hit = [k for k in kf if k.get("key") == f["key"]]
        if hit:
            shown.add(hit[0]["key"])
        else:
            keep.append(f)
    fails = keep
    badkeep = []
    for g in bad:
        hit = [k for k in kf if k.get("obligation") and k["obligation"] == g["name"]]
        if hit:
            shown.add(hit[0].get("key") or hit[0]["obligation"])
        else:
            badkeep.append(g)
    bad = badkeep
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))

    violations = len(fails) + (len(bad) if not fails else 0)
    rdir = os.path.join(HERE, "replays")
    lines = []
    if fails:
        os.makedirs(rdir, exist_ok=True)
        f = fails[0]
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, f["scenario"], f["iteration"]))
        json.dump(dict(f, property=pid, failed_obligations=[dict(name=g["name"], detail=g["detail"][:2000]) for g in bad],
                       command="%s %s/concrete/run.py %s /dev/null --replay %s" % (PY, HERE, pid, path)), open(path, "w"), indent=1)
        print("failing input: %s: %s" % (f["scenario"], f["detail"][:2000]))
        for g in bad[:5]:
            print("failed obligation: %s (%s)" % (g["name"], g["status"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif bad:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-obligation.json" % pid)
        json.dump({"property": pid, "failed_obligations": bad, "searched": (conc or {}).get("evaluations", 0) + (extra or {}).get("evaluations", 0)},
                  open(path, "w"), indent=1)
        for g in bad[:5]:
            print("failed obligation: %s (%s) %s" % (g["name"], g["status"], g["detail"][:600]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    for g in unsup[:5]:
        print("bounded: %s outside the verifier's reach, decided by the executable contract only: %s" % (g["name"], g["detail"][:300]))
    for q in dropped:
        print("contract of %s not proved on this source; its callers are verified through its body" % q)
    for q in late:
        print("bounded: %s not finished in time, decided by the executable contract only" % q)

    # ------------------------------------------------------------------ evidence
    meta = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in meta["checks"] if c["property"] == pid), "proof" if has_proof else "exploration")
    if has_proof and (unsup or late) and level == "proof" and not public:
        level = "exploration"
    st = {}
    for r in (proof["kernels"] + proof["cases"]) if proof else []:
        for k, v in (r.get("solver") or {}).items():
            st[k] = st.get(k, 0) + v
    counted = public + [g for g in kern if g["used"]]
    execd = sorted(set(x for c in (proof["cases"] if proof else []) for x in c["executed"]))
    info = load_info(pid)
    cov = {
        "obligations": len(counted) + len(late),
        "discharged": sum(1 for g in counted if g["status"] == "proved"),
        "obligation_names": sorted(set(g["name"] for g in counted))[:400],
        "not_discharged": [dict(name=g["name"], status=g["status"], detail=g["detail"][:400]) for g in counted if g["status"] != "proved"],
        "functions_under_contract": sorted(set(g["kernel"] for g in kern if g["used"]) | set(info.get("public", []))),
        "functions_verified_through_their_body": execd,
        "contracts_not_proved": dropped,
        "paths": sum(c["paths"] for c in (proof["cases"] if proof else [])),
        "back_ends": {"z3 queries": st.get("z3_calls", 0), "z3 unsat": st.get("unsat", 0), "cvc5 queries": st.get("cvc5_calls", 0),
                      "cvc5 unsat": st.get("cvc5_unsat", 0)},
        "solver_time_s": round(st.get("z3_time", 0) + st.get("cvc5_time", 0), 2),
        "proof_wall_s": round(proof["wall"], 2) if proof else None,
        "checker_cmd": "cd /verif && python3-vt -m pyvc.driver %s OUT.json" % pid,
        "trusted_base": TRUSTED + info.get("trusted", []),
        "evaluations": (conc or {}).get("evaluations", 0) + (extra or {}).get("evaluations", 0),
        "distinct_nontrivial": (conc or {}).get("distinct", 0),
        "rule": "executable contract: random and edge-case inputs from VERIF_SEED through the public functions of the compiled code, compared with an independent definition; distinct by the recorded shape/parameter signature",
        "samples": (conc or {}).get("samples", []),
        "scenarios": (conc or {}).get("scenarios", {}),
        "bounded": info.get("bounded", []) + [g["name"] for g in unsup] + late,
    }
    if problems:
        cov["problems"] = problems
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ARITH + info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d evaluations of the executable contract, %.0f s" % (
        pid, cov["discharged"], cov["obligations"], cov["evaluations"], time.time() - t0))
    if problems and not lines:
        for p in problems:
            print("ERROR " + p)
        return 2
    for l in lines:
        print(l)
    return 1 if lines else 0


def load_info(pid):
    p = os.path.join(HERE, "props", pid + ".json")
    return json.load(open(p)) if os.path.exists(p) else {}


def tail(p):
    try:
        return open(p).read()[-1500:]
    except Exception:
        return ""


if __name__ == "__main__":
    sys.exit(main())
