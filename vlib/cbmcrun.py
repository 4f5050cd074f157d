"""Bounded model checking jobs with CBMC over the real sources."""
import json, os, re, time
from .common import *
def goto_cmd(job):
    srcs = [os.path.join(HARN, job["harness"])]
    for s in job.get("sources", []): srcs.append(s if os.path.isabs(s) else repo(s))
    srcs += job.get("extra_sources", [])
    cmd = ["cbmc"] + srcs + incflags() + ["-DVF_CBMC=1"] + ["-D" + d for d in job.get("defines", [])]
    cmd += ["--function", job.get("function", "harness"), "--unwinding-assertions", "--unwind", str(job.get("unwind", 20)),
            "--no-malloc-may-fail" if not job.get("malloc_fail") else "--malloc-fail-null", "--drop-unused-functions",
            "--sat-solver", job.get("sat", "cadical"), "--object-bits", str(job.get("object_bits", 9))]
    if job.get("malloc_fail"): cmd.append("--malloc-may-fail")
    if job.get("leaks"): cmd.append("--memory-leak-check")
    for u in job.get("unwindset", []): cmd += ["--unwindset", u]
    cmd += job.get("flags", [])
    return cmd
def parse(out):
    try: msgs = json.loads(out)
    except Exception:
        return None, "unparsable cbmc output: " + out[-500:]
    res, errs, vccs = None, [], ""
    for m in msgs:
        if "result" in m: res = m["result"]
        if m.get("messageType") == "ERROR": errs.append(m.get("messageText", ""))
        if "VCC" in m.get("messageText", "") and "generated" in m.get("messageText", "").lower(): vccs = m["messageText"]
    return res, ("; ".join(errs) if errs else vccs)
def inputs_of(trace):
    r = []
    for st in trace:
        if st.get("stepType") == "input":
            for v in st.get("values", []):
                b = v.get("binary")
                if b is None: continue
                r.append((len(b), int(b, 2)))
    return r
def run_job(job):
    """-> dict(name,status in pass|fail|inconclusive, ...)"""
    t0 = time.time()
    R = dict(name=job["name"], engine="cbmc", harness=job["harness"], function=job.get("function", "harness"),
             bounds=job.get("bounds", ""), functions=job.get("functions", []))
    cmd = goto_cmd(job) + ["--json-ui"]
    rc, o, e, s = run(cmd, timeout=job.get("timeout", 300), mem_gb=job.get("mem_gb", 12))
    R["solver_s"] = round(s, 2)
    if rc is None: R.update(status="inconclusive", why="cbmc timeout"); return R
    miss = set(re.findall(r"no body for (?:function|callee) '?([A-Za-z_]\w*)", o)) - set(job.get("nobody_ok", ()))
    if miss and not job.get("no_autolink"):
        more = find_definitions(sorted(miss), job)
        if more:
            job["extra_sources"] = more
            cmd = goto_cmd(job) + ["--json-ui"]
            rc, o, e, s = run(cmd, timeout=job.get("timeout", 300), mem_gb=job.get("mem_gb", 12)); R["solver_s"] += round(s, 2)
            if rc is None: R.update(status="inconclusive", why="cbmc timeout"); return R
            miss = set(re.findall(r"no body for (?:function|callee) '?([A-Za-z_]\w*)", o)) - set(job.get("nobody_ok", ()))
    if miss: R["bodyless"] = sorted(miss)
    res, info = parse(o)
    if res is None: R.update(status="inconclusive", why="cbmc rc=%s: %s %s" % (rc, info, e[-500:])); return R
    covers = [p for p in res if p["description"].startswith("COVER ")]
    real = [p for p in res if not p["description"].startswith("COVER ")]
    bad = [p for p in real if p["status"] != "SUCCESS"]
    R["queries"] = len(real); R["discharged"] = len(real) - len(bad)
    R["vf_asserts"] = sum(1 for p in real if p["description"].startswith("VF "))
    R["covers"] = len(covers)
    unreached = [p["description"] for p in covers if p["status"] != "FAILURE"]
    R["vccs"] = info
    if bad:
        unw = [p for p in bad if ".unwind" in p["property"] or "unwinding assertion" in p["description"]]
        order = [p for p in bad if p not in unw] + unw
        texts = []
        for p in order[:6]:
            rc, o, e, s = run(goto_cmd(job) + ["--json-ui", "--trace", "--property", p["property"]], timeout=job.get("timeout", 300), mem_gb=job.get("mem_gb", 12))
            R["solver_s"] += round(s, 2)
            r2, info = parse(o) if rc is not None else (None, "timeout")
            if not r2: texts.append("no trace for %s: %s" % (p["property"], info)); continue
            q = [x for x in r2 if x["property"] == p["property"]]
            if not q or "trace" not in q[0]: texts.append("no trace for " + p["property"]); continue
            inp = inputs_of(q[0]["trace"])
            ok, txt = replay_native(job, inp)
            loc = p.get("sourceLocation", {})
            if ok:
                R.update(status="fail", what=p["description"].replace("VF ", ""), where="%s:%s" % (loc.get("file", "?"), loc.get("line", "?")),
                         inputs=inp, replay_text=txt, job=job, wall_s=round(time.time() - t0, 2))
                return R
            texts.append("%s (%s:%s) not reproduced natively: %s" % (p["description"], loc.get("file"), loc.get("line"), txt[-800:]))
        R.update(status="inconclusive", why="solver counterexample without native reproduction: " + " || ".join(texts))
    elif unreached:
        R.update(status="inconclusive", why="vacuous: unreached " + ", ".join(unreached))
    else: R["status"] = "pass"
    R["wall_s"] = round(time.time() - t0, 2)
    return R
