"""Shared paths, subprocess helpers and native replay."""
import re, os, subprocess, tempfile, shutil, json, time, signal, resource, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CLANG = shutil.which("clang-18") or shutil.which("clang") or "/usr/lib/llvm-18/bin/clang"
GOLD = "src/crypto/goldilocks/src/"
INC = ["include", "src", "src/protocol", GOLD + "include", GOLD + "p448", GOLD + "p448/arch_x86_64", "src/protobufs", ".", "include/noise/keys"]
_work = None
def workdir():
    """A scratch directory owned by this run."""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("VF_TMP", "/tmp"))
        import atexit
        atexit.register(_cleanup, _work, os.getpid())
    return _work
def _cleanup(d, pid):
    if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
def repo(p): return os.path.join(REPO, p)
def incflags(): return ["-I" + HARN, "-I" + SPEC] + ["-I" + repo(i) for i in INC]
def run(cmd, timeout=None, mem_gb=None, env=None, input=None, cwd=None):
    """Run a command; returns (rc, stdout, stderr, seconds).  rc None on timeout."""
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30)); resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         preexec_fn=pre, env=env, cwd=cwd)
    try:
        o, e = p.communicate(input, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate(); rc = None
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t

NATIVE_FLAGS = ["-g", "-O1", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,function", "-fno-sanitize-recover=all"]
def build_native(job, tag, extra=()):
    """Compile harness + real sources with sanitizers.  Returns path or (None, error)."""
    out = os.path.join(workdir(), "nat-%s-%s" % (job["name"].replace("/", "_"), tag))
    srcs = [os.path.join(HARN, job["harness"]), os.path.join(HARN, "vf_native.c")]
    if job.get("override_sources"): srcs += job["override_sources"]; extra = tuple(extra) + ("-fno-inline", "-Wl,-z,muldefs")
    for s in job.get("sources", []): srcs.append(s if os.path.isabs(s) else repo(s))
    for s in job.get("native_sources", []): srcs.append(s if os.path.isabs(s) else repo(s) if s.startswith("src/") else os.path.join(VERIF, s))
    defs = ["-D" + d for d in job.get("defines", [])] + ["-DVF_NATIVE=1"]
    for s in job.get("extra_sources", []): srcs.append(s)
    srcs = list({os.path.realpath(s): s for s in srcs}.values())
    for rnd in range(2):
        rc, o, e, _ = run([CLANG] + NATIVE_FLAGS + SAN + list(extra) + defs + incflags() + list(job.get("cflags", [])) +
                          srcs + ["-o", out] + list(job.get("ldflags", [])), timeout=240)
        miss = sorted(set(re.findall(r"undefined reference to `(\w+)'", e)))
        if rc == 0 or rnd or not miss: break
        stub = out + "-undef.c"     # functions no explored path reaches
        with open(stub, "w") as fh:
            fh.write("#include <stdio.h>\n#include <unistd.h>\n")
            for m in miss:
                if m != "main": fh.write("void %s(void) { printf(\"VF-UNDEFINED %s\\n\"); fflush(stdout); _exit(3); }\n" % (m, m))
        srcs.append(stub)
    if rc != 0: return None, e[-3000:]
    return out, ""
def replay_native(job, inputs, timeout=30):
    """inputs: list of (width, value).  Returns (reproduced?, text)."""
    text = ""
    f = os.path.join(workdir(), "in-%d-%s.txt" % (os.getpid(), hashlib.sha1(repr(inputs).encode()).hexdigest()[:10]))
    with open(f, "w") as fh:
        for w, v in inputs: fh.write("%d %x\n" % (w, v))
    for tag, extra in (("pat", ["-ftrivial-auto-var-init=pattern"]), ("plain", [])):
        b, err = build_native(job, tag, extra)
        if b is None: text += "[native build failed] " + err; continue
        env = dict(os.environ, VF_REPLAY=f, ASAN_OPTIONS="abort_on_error=0:exitcode=65:detect_leaks=%d:allocator_may_return_null=1:malloc_fill_byte=165:max_malloc_fill_size=65536" % (1 if job.get("leaks") else 0),
                   UBSAN_OPTIONS="print_stacktrace=1", LSAN_OPTIONS="use_stacks=0:use_registers=0" )
        rc, o, e, s = run([b], timeout=timeout, env=env)
        text += "[%s] rc=%s %s %s\n" % (tag, rc, o[-600:], e[:1500])
        if "VF-ASSUME-FALSE" in o or "VF-DESYNC" in o: continue
        if rc is None: return True, text + "native run did not terminate within %ds" % timeout
        if rc in (65, 66) or rc < 0 or "runtime error" in e or "AddressSanitizer" in e or rc == 1: return True, text
    return False, text

_defs = {}
def find_definitions(symbols, job):
    """source files of the repository that define the given functions (for code the job's list does not name)"""
    out = set()
    sod = any("USE_LIBSODIUM" in c for c in job.get("cflags", [])); ssl = any("USE_OPENSSL" in c for c in job.get("cflags", []))
    have = set(os.path.realpath(s if os.path.isabs(s) else repo(s)) for s in job.get("sources", []))
    cands = []
    for base in ("src/protocol", "src/keys", "src/protobufs", "src/crypto", "src/backend"):
        for d, _, fs in os.walk(repo(base)):
            if "/sodium" in d and not sod or "/openssl" in d and not ssl or "/goldilocks" in d or "/fuzz" in d: continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".c") and not f.startswith("test") and os.path.realpath(p) not in have: cands.append(p)
    for p in cands:
        try: txt = open(p, errors="replace").read()
        except OSError: continue
        hit = [x for x in symbols if re.search(r"\b%s\s*\(" % re.escape(x), txt)]
        if not hit: continue
        b = os.path.join(workdir(), "fd-%d.bc" % os.getpid())
        rc, o, e, _ = run([CLANG, "-O0", "-emit-llvm", "-c", "-w"] + incflags() + job.get("cflags", []) + [p, "-o", b], timeout=60)
        if rc != 0: continue
        rc, o, e, _ = run([NM, "--defined-only", b], timeout=30)
        names = {l.split()[-1] for l in o.splitlines() if l.split()}
        if any(h in names for h in hit): out.add(p)
    return sorted(out)
NM = shutil.which("llvm-nm-18") or shutil.which("llvm-nm") or "/usr/lib/llvm-18/bin/llvm-nm"
