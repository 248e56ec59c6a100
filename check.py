#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo
check.py --replay FILE                        re-run a recorded failing input

Exit 0: every obligation discharged (or covered by a labelled bounded stand-in).
Exit 1: VIOLATION line printed."""
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("DV_REPO", "/repo")
VENV = "/opt/venv/bin/python"
HARD = {"quick": 420, "thorough": 3000}


def known_findings(pid):
    """entries 'finding: property=<id> goal=<key> obligation=<name> <text>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                f = dict(x.split("=", 1) for x in line.split() if "=" in x)
                out.append((f.get("goal"), f.get("obligation"), line[len("finding: "):]))
    return out


def sym_worker(args):
    key, budget = args
    from dv import spec
    from dv.symc import run_goal
    g = spec.GOALS[key]
    t0 = time.time()
    try:
        return run_goal(g, REPO, deadline=time.time() + budget)
    except BaseException as e:  # never let a worker die silently
        return dict(key=key, status="unsupported", note="engine: %s: %s" % (type(e).__name__, e), obligations=[], paths=0,
                    complete=0, functions=[], assumptions=[], unattached=[], dropped=[], time=time.time() - t0,
                    solver_time=0.0, queries=0, models=[])


def conc_env(jit, tmp):
    e = dict(os.environ)
    e["PYTHONPATH"] = REPO + ":" + HERE
    e["OMP_NUM_THREADS"] = "1"
    e["TMPDIR"] = tmp
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["MPLBACKEND"] = "agg"
    e["MPLCONFIGDIR"] = tmp
    e["NUMBA_CACHE_DIR"] = os.path.join(tmp, "numba")
    e.pop("NUMBA_DISABLE_JIT", None)
    if not jit:
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def run_conc(jobs, jit, tmp, timeout):
    """jobs: list of dicts; returns results by key"""
    res = {}
    if not jobs:
        return res
    p = subprocess.Popen([VENV, "-W", "ignore", "-m", "dv.conc"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=conc_env(jit, tmp), cwd=tmp, start_new_session=True)
    try:
        out, err = p.communicate(json.dumps(jobs), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        err += "\n(timeout)"
    for line in out.splitlines():
        if line.startswith("@@"):
            r = json.loads(line[2:])
            res[r["key"]] = r
    for j in jobs:
        if j["key"] not in res:
            res[j["key"]] = dict(key=j["key"], status="error", n=0, checks=0, note="concrete run ended: " + err[-800:],
                                 name="", detail="", inputs=None, seed=None)
    return res


def conc_parallel(jobs, tmp, timeout, nproc):
    from concurrent.futures import ThreadPoolExecutor
    groups = []
    for jit in (False, True):
        js = [j for j in jobs if j["jit"] == jit]
        js.sort(key=lambda j: -j["budget"])
        k = min(nproc, max(1, len(js)))
        parts = [js[i::k] for i in range(k)]
        groups += [(p, jit) for p in parts if p]
    res = {}
    with ThreadPoolExecutor(max_workers=max(1, nproc)) as ex:
        for r in ex.map(lambda g: run_conc(g[0], g[1], tmp, timeout), groups):
            res.update(r)
    return res


def main():
    t00 = time.time()
    argv = sys.argv[1:]
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="dvcheck_")
    try:
        return check(pid, tier, seed, tmp, t00)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed, tmp, t00):
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    from dv import spec
    spec.load_all()
    goals = [g for k, g in sorted(spec.GOALS.items()) if g.pid == pid and (tier == "thorough" or not g.thorough_only)]
    mult = 1 if tier == "quick" else 10
    hard = t00 + HARD[tier]
    symg = sorted([g for g in goals if g.sym], key=lambda g: -g.budget)
    concg = [g for g in goals if g.conc]
    ncpu = 8
    sym, con = {}, {}
    pool = mp.get_context("fork").Pool(min(ncpu, max(1, len(symg))), maxtasksperchild=None) if symg else None
    pend = {g.key: pool.apply_async(sym_worker, ((g.key, g.budget * (1 if tier == "quick" else 4)),)) for g in symg}
    # conformance / stand-in run on the real code
    jobs = [dict(key=g.key, n=g.n * mult, budget=(g.conc_budget or 12) * (1 if tier == "quick" else 8), seed0=seed, jit=g.jit)
            for g in concg]
    con = conc_parallel(jobs, tmp, max(30, hard - time.time()), 4 if symg else 8)
    for k, a in pend.items():
        try:
            sym[k] = a.get(timeout=max(1, hard - time.time()))
        except mp.TimeoutError:
            sym[k] = dict(key=k, status="budget", note="check time limit", obligations=[], paths=0, complete=0, functions=[],
                          assumptions=[], unattached=[], dropped=[], time=0, solver_time=0, queries=0, models=[])
    if pool:
        pool.terminate()
    # second stage: search for a failing input where the verifier rejected or could not decide
    second = []
    for g in concg:
        s = sym.get(g.key)
        if con[g.key]["status"] in ("violation", "skip"):
            continue
        if s is not None and s["status"] != "proved":
            m = 20 if s["status"] in ("refuted", "unknown") else 6
            second.append(dict(key=g.key, n=g.n * mult * m, budget=45 if tier == "quick" else 200, seed0=seed + 1000,
                               jit=g.jit, hints=(s.get("models") or [])))
    if second and time.time() < hard - 60:
        r2 = conc_parallel(second, tmp, max(30, hard - time.time()), 8)
        for k, r in r2.items():
            if r["status"] == "violation" or con[k]["status"] != "ok":
                n0 = con[k].get("n", 0)
                con[k] = r
            else:
                con[k]["n"] += r["n"]
                con[k]["checks"] += r["checks"]
    return report(pid, tier, seed, goals, sym, con, t00)


def report(pid, tier, seed, goals, sym, con, t00):
    known = known_findings(pid)
    viol, kf, rows = [], [], []
    nob = ndis = bob = bdis = 0
    ftot, assum, backs = set(), set(), {}
    bounded = []
    evals = checks = 0
    st = 0.0
    samples = []
    for g in goals:
        s, c = sym.get(g.key), con.get(g.key)
        row = dict(goal=g.key)
        if s is not None:
            row.update(verifier=s["status"], obligations=len(s["obligations"]), paths=s["paths"], note=s["note"][:300],
                       seconds=s["time"], functions=s["functions"])
            if g.bounded:
                bob += len(s["obligations"])
                bdis += sum(o["status"] == "proved" for o in s["obligations"])
            else:
                nob += len(s["obligations"])
                ndis += sum(o["status"] == "proved" for o in s["obligations"])
            ftot |= set(s["functions"])
            assum |= set(s["assumptions"])
            st += s["solver_time"]
            for o in s["obligations"]:
                for b in o["by"]:
                    backs[b] = backs.get(b, 0) + 1
            if s["status"] == "proved" and len(samples) < 6:
                samples.append("%s: %s" % (g.key, ", ".join(o["name"] for o in s["obligations"])))
        if c is not None:
            row.update(concrete=c["status"], samples=c.get("n"), contract_checks=c.get("checks"), cnote=c.get("note", "")[:300])
            evals += c.get("n", 0)
            checks += c.get("checks", 0)
        if s is not None and s["status"] == "proved" and g.bounded:
            bounded.append("%s: all values, structure bounded (%s); all obligations discharged within that bound" % (g.key, g.bounded))
        if (s is None or s["status"] != "proved"):
            bounded.append("%s: %s; contract evaluated on %s sampled inputs%s" % (
                g.key, "verifier: %s (%s)" % (s["status"], s["note"][:160]) if s is not None else "outside the verifier's reach" +
                (" (%s)" % g.bounded if g.bounded else ""), c.get("n") if c else 0, ""))
        rows.append(row)
        v = None
        if c is not None and c["status"] == "violation":
            v = dict(goal=g.key, obligation=c["name"], detail=c["detail"], inputs=c["inputs"], seed=c["seed"],
                     hints=c.get("hints"), failing_input=True)
        elif s is not None and s["status"] == "refuted" and not s["unattached"] and not s["dropped"]:
            bad = [o for o in s["obligations"] if o["status"] == "refuted"]
            v = dict(goal=g.key, obligation=bad[0]["name"], detail=bad[0]["detail"], inputs=None, failing_input=False)
        if v is not None:
            v["verifier"] = [o for o in (s or {}).get("obligations", []) if o["status"] != "proved"]
            v["verifier_models"] = (s or {}).get("models")
            v["dropped_invariants"] = (s or {}).get("dropped")
            hit = [k for k in known if k[0] == g.key and k[1] == v["obligation"]]
            if hit:
                kf.append(hit[0][2])
            else:
                viol.append(v)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    isb = set(g.key for g in goals if g.bounded)
    proved = [r for r in rows if r.get("verifier") == "proved" and r["goal"] not in isb]
    cov = dict(
        obligations=nob, discharged=ndis, bounded_obligations=bob, bounded_obligations_discharged=bdis,
        checker_cmd="python3-vt check.py %s --tier %s" % (pid, tier),
        trusted_base=sorted(assum | BASE_TRUST | set(a for g in goals for a in g.assumes)),
        functions_under_contract=sorted(ftot), back_ends=backs, solver_seconds=round(st, 2),
        goals=rows, goals_proved=len(proved), goals_total=len(rows), bounded_standins=bounded,
        evaluations=evals, contract_checks=checks, distinct_nontrivial=evals,
        rule="inputs satisfying the precondition, drawn from a boundary-biased dyadic lattice; a case counts only if the "
             "precondition held and the postconditions were evaluated",
        samples=samples or ["-"])
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov,
              assumptions=sorted(assum | BASE_TRUST), wall_s=round(time.time() - t00, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property %s: %d/%d obligations discharged%s; %d/%d goals proved, %d bounded stand-ins, %d concrete cases, %.1f s" % (
        pid, ndis, nob, " (and %d/%d within a structural bound)" % (bdis, bob) if bob else "", len(proved), len(rows), len(bounded), evals,
        time.time() - t00))
    for b in bounded:
        print("  bounded: " + b)
    for k in kf:
        print("KNOWN-FINDING: " + k)
    if viol:
        viol.sort(key=lambda v: not v["failing_input"])
        v = viol[0]
        p = os.path.join(HERE, "evidence", "replay", "%s.json" % v["goal"])
        for w in viol:
            with open(os.path.join(HERE, "evidence", "replay", "%s.json" % w["goal"]), "w") as f:
                json.dump(w, f, indent=1, default=str)
            print("  failed obligation: %s / %s %s" % (w["goal"], w["obligation"], str(w["detail"])[:300]))
        print("VIOLATION property=%s replay=%s%s" % (pid, p, "" if v["failing_input"] else " no-failing-input-found"))
        return 1
    return 0


BASE_TRUST = {
    "the verifier itself: dv/ (symbolic semantics of the Python subset, verification-condition generator) and z3/cvc5",
    "machine floating point is treated as real arithmetic (float32 storage rounding, overflow and NaN are outside the proofs)",
    "numpy functions satisfy the contracts in dv/npshim.py (checked on samples by the concrete conformance runs)",
    "numba compiles the Python source faithfully (the njit/jitclass decorators are dropped by the extraction)",
}


def replay(path):
    v = json.load(open(path))
    if not v.get("failing_input"):
        print("no failing input recorded; the failed obligation is %s / %s" % (v["goal"], v["obligation"]))
        print(json.dumps(v["verifier"], indent=1))
        return 1
    from dv import spec
    spec.load_all()
    g = spec.GOALS[v["goal"]]
    tmp = tempfile.mkdtemp(prefix="dvcheck_")
    code = ("import json,sys\nfrom dv import spec,conc\nspec.load_all()\ng=spec.GOALS[%r]\n"
            "r=conc.one_sample(g,%r,json.loads(%r))\nprint(r[:3])\nconc.cleanup()\nsys.exit(1 if r[0]=='violation' else 0)" %
            (v["goal"], v["seed"], json.dumps(v.get("hints"))))
    try:
        return subprocess.call([VENV, "-W", "ignore", "-c", code], env=conc_env(g.jit, tmp), cwd=tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
