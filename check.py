#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--only JOB] : decide one property against /repo's working tree."""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from vlib import common
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing

def dispatch(job):
    try:
        if job["engine"] == "cbmc":
            from vlib import cbmcrun
            return cbmcrun.run_job(job)
        if job["engine"] == "se":
            from vlib import serun
            return serun.run_job(job)
        if job["engine"] == "py":
            mod, fn = job["fn"].split(":")
            return getattr(importlib.import_module(mod), fn)(job)
        raise ValueError(job["engine"])
    except Exception:
        return dict(name=job["name"], engine=job["engine"], status="inconclusive", why="exception: " + traceback.format_exc()[-2500:])

def known():
    """known-findings.txt: lines  'finding: property=ID job=NAME what=TEXT :: description'."""
    r = []
    p = os.path.join(common.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, desc = l[len("finding:"):].partition("::")
                kv = {}
                for tok in head.strip().split(" | "):
                    k, _, v = tok.partition("="); kv[k.strip()] = v.strip()
                kv["desc"] = desc.strip(); r.append(kv)
    return r

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from vlib import registry
    chk = registry.load(pid)
    jobs = [j for j in chk["jobs"](tier) if only is None or only in j["name"]]
    common.workdir()
    results = []
    nproc = int(os.environ.get("VF_JOBS", "8"))
    deadline = t0 + float(os.environ.get("VF_BUDGET", "840" if tier == "quick" else "100000"))
    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as ex:
        # longest first
        jobs.sort(key=lambda j: -j.get("cost", 1))
        futs = {ex.submit(dispatch, j): j for j in jobs}
        try:
            for f in as_completed(futs, timeout=max(1, deadline - time.time())):
                try: r = f.result()
                except Exception as e: r = dict(name=futs[f]["name"], engine=futs[f]["engine"], status="inconclusive", why="worker died: %r" % e)
                results.append(r)
                if os.environ.get("VF_VERBOSE"): print("  %-40s %-12s %.1fs %s" % (r["name"], r["status"], r.get("wall_s", 0), r.get("why", r.get("what", ""))[:1500]), flush=True)
        except TimeoutError:
            done = {r["name"] for r in results}
            for j in jobs:
                if j["name"] not in done: results.append(dict(name=j["name"], engine=j["engine"], status="inconclusive", why="global budget exhausted"))
            for p in list(ex._processes.values()): p.kill()
    results.sort(key=lambda r: r["name"])
    fails = [r for r in results if r["status"] == "fail"]
    inc = [r for r in results if r["status"] == "inconclusive"]
    kf = [k for k in known() if k.get("property") == pid]
    viol = []
    seen = set()
    for r in fails:
        hit = None
        for k in kf:
            if k.get("job", r["name"]) == r["name"] and k.get("what", r.get("what")) == r.get("what"): hit = k
        if hit:
            key = (hit["desc"]); 
            if key not in seen:
                seen.add(key); print("KNOWN-FINDING: property=%s %s" % (pid, hit["desc"]))
        else: viol.append(r)
    rdir = os.path.join(common.EVID, "replays")
    for r in viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, r["name"].replace("/", "_")))
        with open(path, "w") as f: json.dump({k: v for k, v in r.items()}, f, indent=1, default=str)
        print("property %s violated: job %s: %s at %s" % (pid, r["name"], r.get("what"), r.get("where")))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    for r in inc: print("INCONCLUSIVE %s: %s" % (r["name"], r.get("why", "")[:3000]))
    lvl = chk["level"]
    q = sum(r.get("queries", 0) for r in results); d = sum(r.get("discharged", 0) for r in results)
    fnset = sorted({f for r in results for f in r.get("functions", [])})
    cov = dict(explanation=chk["explanation"], queries=q, queries_discharged=d,
               solver_s=round(sum(r.get("solver_s", 0) for r in results), 2),
               functions_encoded=fnset, jobs=[{k: v for k, v in r.items() if k not in ("job", "inputs", "replay_text", "functions")} for r in results],
               states=sum(r.get("states", 0) for r in results), transitions=sum(r.get("transitions", r.get("steps", 0)) for r in results),
               vacuity_witnesses=sum(r.get("covers", 0) for r in results),
               traces_validated_against_impl=sum(r.get("native_validated", 0) for r in results),
               samples=[dict(job=r["name"], bounds=r.get("bounds", ""), queries=r.get("queries", 0)) for r in results][:20],
               bounds=chk.get("bounds", ""))
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=lvl, coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(common.EVID, exist_ok=True)
    with open(os.path.join(common.EVID, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d jobs, %d pass, %d violations, %d known, %d inconclusive, %d queries, %.1fs" % (pid, len(results), sum(r["status"] == "pass" for r in results), len(viol), len(fails) - len(viol), len(inc), q, time.time() - t0))
    if viol: return 1
    if inc or not results: return 2
    return 0
if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
