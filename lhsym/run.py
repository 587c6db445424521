"""Runs the jobs of a property in parallel, replays the candidates on the real code, writes the evidence."""
import argparse
import importlib
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import time
import multiprocessing as mp

from . import harness as H

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("LH_EVIDENCE", os.path.join(ROOT, "evidence"))
REPO = os.environ.get("LH_REPO", "/repo")
PY = os.environ.get("LH_PYTHON", "/opt/venv/bin/python")


def work(conn, fn, job, budget, tier):
    R = H.Report(job["name"])
    t = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)

    def late(*a):
        raise H.JobTimeout()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, budget * 1.25 + 5)
    try:
        fn(R, budget=budget, tier=tier, **job.get("args", {}))
    except H.JobTimeout:
        R.error = "time"
    except MemoryError:
        R.error = "memory"
    except (H.Unsupported, H.PathCut, H.Budget) as e:
        R.error = f"not followed: {e}"
    except BaseException as e:
        import traceback
        R.error = f"{type(e).__name__}: {e} | " + traceback.format_exc()[-600:].replace("\n", " / ")
    signal.setitimer(signal.ITIMER_REAL, 0)
    R.wall = time.time() - t
    try:
        conn.send_bytes(pickle.dumps(R.__dict__))
    except Exception as e:
        conn.send_bytes(pickle.dumps({"job": job["name"], "error": f"result: {e}", "wall": R.wall}))
    conn.close()
    os._exit(0)


def run_jobs(jobs, tier, nproc=None):
    ctx = mp.get_context("fork")
    nproc = nproc or min(8, os.cpu_count() or 8)
    todo = list(jobs)
    live = []
    out = []
    while todo or live:
        while todo and len(live) < nproc:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, j["fn"], j, j["budget"], tier), daemon=True)
            p.start()
            b.close()
            live.append((p, a, j, time.time() + j["budget"] * 1.25 + 25))
        for it in list(live):
            p, a, j, dl = it
            done = False
            if a.poll(0):
                try:
                    d = pickle.loads(a.recv_bytes())
                except (EOFError, OSError):
                    d = {"job": j["name"], "error": "worker died", "wall": 0.0}
                done = True
            elif not p.is_alive():
                d = {"job": j["name"], "error": "worker died", "wall": 0.0}
                done = True
            elif time.time() > dl:
                p.kill()
                d = {"job": j["name"], "error": "time (killed)", "wall": dl}
                done = True
            if done:
                R = H.Report(j["name"])
                R.__dict__.update(d)
                out.append(R)
                p.join(5)
                if p.is_alive():
                    p.kill()
                live.remove(it)
        time.sleep(0.01)
    return out


def replay(cases, timeout=400):
    """Confirm candidates with the real code; returns [(case, result)]."""
    if not cases:
        return []
    n = min(8, max(1, len(cases) // 4))
    procs = []
    env = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", LH_REPO=REPO,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    for i in range(n):
        part = cases[i::n]
        p = subprocess.Popen([PY, os.path.join(ROOT, "replay", "replay.py"), "-"], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, cwd="/")
        procs.append((p, part))
    import threading
    res = [None] * n

    def talk(i):
        p, part = procs[i]
        try:
            o, e = p.communicate(json.dumps(part), timeout=timeout)
            res[i] = (o, e)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            res[i] = (o or "", "timeout " + (e or ""))
    th = [threading.Thread(target=talk, args=(i,)) for i in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    out = []
    for i, (p, part) in enumerate(procs):
        o, e = res[i]
        lines = [json.loads(l[7:]) for l in o.splitlines() if l.startswith("RESULT ")]
        for k, c in enumerate(part):
            out.append((c, lines[k] if k < len(lines) else {"bad": False, "error": "no result " + e[-200:]}))
    return out


def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def matches(f, case, result):
    """A finding is identified by fields of the case and, if given, of what the real code did."""
    return (all(case.get(k) == v for k, v in f["match"].items())
            and all(result.get(k) == v for k, v in f.get("result", {}).items()))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("lhsym.props." + a.prop.lower())
    jobs = mod.jobs(tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j["name"]]
    reps = run_jobs(jobs, tier)
    cases = []
    seen = set()
    for R in reps:
        for c in R.cands:
            k = json.dumps({x: y for x, y in c.items() if x not in ("ob", "model")}, sort_keys=True, default=str)
            if k not in seen:
                seen.add(k)
                cases.append({**c, "job": R.job})
    tr = time.time()
    results = replay(cases)
    tr = time.time() - tr
    viol, kn = [], {}
    fs = known(a.prop)
    for c, r in results:
        if r.get("bad"):
            f = next((f for f in fs if matches(f, c, r)), None)
            if f:
                kn.setdefault(f["what"], []).append(c)
            else:
                viol.append((c, r))
    tot = [0, 0, 0]
    obs = {}
    st = {}
    fns = set()
    for R in reps:
        for k, o in R.obs.items():
            d = obs.setdefault(k, [0, 0, 0])
            for i in range(3):
                d[i] += o[i]
                tot[i] += o[i]
        for k, v in R.stats.items():
            st[k] = st.get(k, 0) + v
        fns |= R.functions
    samples = [s for R in reps for s in R.samples][:6]
    und = {R.job: {k: o for k, o in R.obs.items() if o[1] or o[2]} for R in reps}
    und = {k: v for k, v in und.items() if v}
    wall = time.time() - t0
    n_ob = sum(tot)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.METHOD,
            "evaluations": n_ob,
            "distinct_nontrivial": sum(R.reached for R in reps) or n_ob,
            "rule": "one obligation per feasible symbolic path and assertion; non-trivial: the path reaches the assertion "
                    "with a satisfiable path condition, and the assertion is not decided by constant folding alone",
            "obligations": n_ob, "discharged": tot[0], "undecided": tot[1], "refuted_by_solver": tot[2],
            "by_assertion": {k: dict(discharged=o[0], undecided=o[1], refuted=o[2]) for k, o in sorted(obs.items())},
            "functions_encoded": sorted(fns),
            "bounds": mod.BOUNDS,
            "solver": {"queries": st.get("queries", 0), "sat": st.get("sat", 0), "unsat": st.get("unsat", 0),
                       "unknown": st.get("unknown", 0), "seconds": round(st.get("time", 0.0), 2),
                       "identity_tests": st.get("zero_tests", 0)},
            "paths": {R.job: dict(R.paths, complete=R.complete) for R in reps},
            "job_seconds": {R.job: round(R.wall, 1) for R in reps},
            "job_errors": {R.job: R.error for R in reps if R.error},
            "notes": {R.job: R.notes for R in reps if R.notes},
            "undecided_by_job": und,
            "candidates_replayed": len(results),
            "replay_seconds": round(tr, 1),
            "replay_errors": [r.get("error") for c, r in results if r.get("error")][:5],
            "samples": samples or [{"job": R.job, "paths": R.paths} for R in reps[:3]],
            "known_findings_seen": sorted(kn),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.prop} {tier}: {len(jobs)} jobs, {n_ob} obligations, {tot[0]} discharged, {tot[1]} undecided, {tot[2]} refuted; "
          f"{st.get('queries', 0)} queries {st.get('time', 0):.1f}s; {len(results)} candidates replayed; {wall:.1f}s")
    if a.v:
        for R in reps:
            o = [sum(v[i] for v in R.obs.values()) for i in range(3)]
            u = {k: v for k, v in R.obs.items() if v[1] or v[2]}
            print(f"  {R.job}: {R.wall:.1f}s {R.paths} complete={R.complete} {o} {u or ''} err={R.error} cands={len(R.cands)}")
            for n in R.notes[:6]:
                print("      ", n)
        for c, r in sorted(results, key=lambda t: not t[1].get("bad"))[:12]:
            print("   cand", json.dumps(c, default=str)[:260], "->", json.dumps(r)[:180])
    for w, cs in sorted(kn.items()):
        print(f"KNOWN-FINDING: property={a.prop} {w}")
    # a listed finding that was not met by a candidate this time is replayed from the list
    for f in fs:
        if f["what"] not in kn and f.get("case"):
            r = replay([f["case"]])[0][1]
            if r.get("bad") and matches(f, f["case"], r):
                print(f"KNOWN-FINDING: property={a.prop} {f['what']}")
    if viol:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        for i, (c, r) in enumerate(viol[:5]):
            path = os.path.join(d, f"{a.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"case": c, "result": r}, f, indent=1, default=str)
            print(f"VIOLATION property={a.prop} replay={path}")
            print("   ", r.get("detail", "")[:300])
        return 1
    if reps and all(R.error for R in reps):
        # nothing was analysed at all: this is no answer
        print("no job could be analysed:", reps[0].error)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
