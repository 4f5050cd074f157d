"""Symbolic-execution jobs: compile harness + sources to IR, explore, replay counterexamples natively."""
import os, re, time, hashlib
from .common import *
from . import ir, se, term
OPT = shutil.which("opt-18") or shutil.which("opt") or "/usr/lib/llvm-18/bin/opt"
LINK = shutil.which("llvm-link-18") or shutil.which("llvm-link")
DIS = shutil.which("llvm-dis-18") or shutil.which("llvm-dis") or "/usr/lib/llvm-18/bin/llvm-dis"
PASSES = "sroa,early-cse,simplifycfg,dce"
_DECL = re.compile(r"^declare [^@]*@([\w.]+)\(", re.M)
def build_ir(job):
    txt, err = build_ir1(job)
    if txt is None or job.get("no_autolink"): return txt, err
    for rnd in range(3):
        miss = [f for f in _DECL.findall(txt) if not f.startswith(("llvm.", "vf_")) and f not in job.get("stubbed", ()) and f not in KNOWN]
        if not miss: break
        more = [p for p in find_definitions(miss, job) if p not in job.get("extra_sources", [])]
        if not more: break
        job["extra_sources"] = job.get("extra_sources", []) + more
        t2, e2 = build_ir1(job)
        if t2 is None: job["extra_sources"] = job["extra_sources"][:-len(more)]; break
        txt = t2
    return txt, err
KNOWN = {"memcpy", "memmove", "memset", "malloc", "calloc", "free", "realloc", "abort", "exit", "__assert_fail", "printf", "puts", "fprintf", "perror", "putchar"}
def build_ir1(job):
    d = os.path.join(workdir(), "se-" + job["name"].replace("/", "_") + "-%d" % os.getpid()); os.makedirs(d, exist_ok=True)
    srcs = [os.path.join(HARN, job["harness"]), os.path.join(HARN, "vf_libc.c")]
    for s in job.get("sources", []): srcs.append(s if os.path.isabs(s) else repo(s))
    srcs += job.get("extra_sources", [])
    nov = len(srcs); srcs += job.get("override_sources", [])
    bcs = []
    for i, s in enumerate(srcs):
        b = os.path.join(d, "%d.bc" % i)
        cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-emit-llvm", "-c", "-w", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-DVF_SE=1"] + \
              ["-D" + x for x in job.get("defines", [])] + incflags() + job.get("cflags", []) + [s, "-o", b]
        rc, o, e, _ = run(cmd, timeout=120)
        if rc != 0: return None, "compile %s: %s" % (s, e[-1500:])
        bcs.append(b)
    out = os.path.join(d, "all")
    rc, o, e, _ = run([LINK] + bcs[:nov] + ["--override=" + b for b in bcs[nov:]] + ["-o", out + ".bc"], timeout=120)
    if rc != 0: return None, "link: " + e[-1500:]
    rc, o, e, _ = run([OPT, "-passes=internalize<preserve-gv=%s>,globaldce,%s" % (job.get("function", "harness"), job.get("passes", PASSES)), out + ".bc", "-o", out + ".o.bc"], timeout=120)
    if rc != 0:
        rc, o, e, _ = run([OPT, "-passes=%s" % job.get("passes", PASSES), out + ".bc", "-o", out + ".o.bc"], timeout=120)
        if rc != 0: return None, "opt: " + e[-1500:]
    rc, o, e, _ = run([DIS, out + ".o.bc", "-o", out + ".ll"], timeout=120)
    if rc != 0: return None, "dis: " + e[-1500:]
    with open(out + ".ll") as f: txt = f.read()
    for a, b in job.get("ideal", {}).items():      # the ideal function stands for the real one
        t2, n1 = re.subn(r"(?m)^(define [^@\n]*)@%s\(" % a, r"\1@%s__real(" % a, txt)
        t2, n2 = re.subn(r"(?m)^(define [^@\n]*)@%s\(" % b, r"\1@%s(" % a, t2)
        if n1 == 1 and n2 == 1: txt = t2
        else: return None, "function %s not found" % a
    if not job.get("keep_ir"): shutil.rmtree(d, ignore_errors=True)
    return txt, ""
def run_job(job):
    t0 = time.time()
    R = dict(name=job["name"], engine="symbolic-executor", harness=job["harness"], function=job.get("function", "harness"), bounds=job.get("bounds", ""))
    txt, err = build_ir(job)
    if txt is None: R.update(status="inconclusive", why=err); return R
    term.reset(); se.Engine._satc = {}; se.Engine._vc = {}; term.RAW = bool(job.get("raw")); term.ANF = bool(job.get("anf")); term.FIT = bool(job.get("fit"))
    mod = ir.Module(txt)
    eng = se.Engine(mod, job.get("opts"))
    if job.get("setup"):
        import importlib
        m, fn = job["setup"].split(":"); getattr(importlib.import_module(m), fn)(eng, job)
    eng.deadline = time.time() + job.get("timeout", 600)
    eng.explore("@" + job.get("function", "harness"), job.get("max_paths", 2000000))
    S = eng.stats
    mine = [f[1:] for f in eng.fnsused]
    R.update(paths=S["paths"], states=S["paths"] + S["ended"], steps=S["steps"], forks=S["forks"], queries=S["queries"] + S["asserts"], solver_queries=S["queries"],
             solver_s=round(S["solver_s"], 2), asserts=S["asserts"], asserts_by_rewriting=S["assert_syntactic"], asserts_by_solver=S["assert_solver"],
             discharged=S["queries"] + S["asserts"] - len(eng.violations), functions=sorted(mine), covers=len(eng.covers), cover_counts=dict(list(eng.covers.items())[:40]))
    if eng.violations:
        texts = []
        for v in eng.violations[:4]:
            ok, t = replay_native(job, v["inputs"])
            if ok:
                R.update(status="fail", what=v["what"], where=v["where"], inputs=v["inputs"], replay_text=t, job=job, wall_s=round(time.time() - t0, 2)); return R
            texts.append("%s at %s: not reproduced natively: %s" % (v["what"], v["where"], t[-700:]))
        if job.get("engine_only"):
            # the violated statement is about the execution itself (addresses, dead stack); there is no native observable
            v = eng.violations[0]
            R.update(status="fail", what=v["what"], where=v["where"], inputs=v["inputs"], replay_text="observed on the symbolic execution of the IR", job=job, wall_s=round(time.time() - t0, 2)); return R
        R.update(status="inconclusive", why=" || ".join(texts))
    elif eng.inconcl: R.update(status="inconclusive", why="; ".join(eng.inconcl[:5]))
    else:
        miss = [c for c in job.get("must_cover", ["end"]) if c not in eng.covers]
        if miss or S["asserts"] == 0: R.update(status="inconclusive", why="vacuous: not reached: %s (asserts %d)" % (miss, S["asserts"]))
        else: R["status"] = "pass"
    # validate the translation: run the real code natively on inputs of explored paths
    if R["status"] == "pass" and job.get("validate", True) and eng.path_models:
        b, err = build_native(job, "val")
        if b is None: R["validation"] = "native build failed: " + err[-300:]; R.update(status="inconclusive", why=R["validation"])
        else:
            good = 0
            for inp, cov in eng.path_models:
                f = os.path.join(workdir(), "val-%s-%d.txt" % (job["name"].replace("/", "_"), os.getpid()))
                with open(f, "w") as fh:
                    for w, v in inp: fh.write("%d %x\n" % (w, v))
                rc, o, e, _ = run([b], timeout=60, env=dict(os.environ, VF_REPLAY=f, ASAN_OPTIONS="detect_leaks=0"))
                nc = [l[9:] for l in o.splitlines() if l.startswith("VF-COVER ")]
                if rc == 0 and nc == [c for c in cov if c != "(stop)"]: good += 1
                else: R.setdefault("validation_notes", []).append("rc=%s native covers %s, symbolic %s %s" % (rc, nc[:6], cov[:6], (o + e)[-300:]))
            R["native_validated"] = good; R["native_tried"] = len(eng.path_models)
            if good < len(eng.path_models) and job.get("strict_validation", True):
                R.update(status="inconclusive", why="the native run disagrees with the symbolic execution: " + str(R["validation_notes"])[:1500])
    R["wall_s"] = round(time.time() - t0, 2)
    return R
