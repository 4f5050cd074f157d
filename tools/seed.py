#!/usr/bin/env python3
"""seed.py DIR : confirm a planted bug in a scratch copy of /repo.  DIR holds meta.json, demo.sh, demo.c and either patch.diff or
edit.json = [[file, old, new], ...] from which patch.diff is written.  Prints what was confirmed; a bug that fails is reported."""
import json, os, subprocess, sys, tempfile, shutil
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
d=$(dirname "$0"); c=${CONF:-@CONF@}; o=$(mktemp -d) || exit 2
trap 'rm -r "$o"' EXIT
b=_build/$c/src
gcc -g -O1 @FLAGS@ -Iinclude -Isrc -I_build/$c -o "$o/demo" "$d/demo.c" $b/keys/libnoisekeys.a $b/protobufs/libnoiseprotobufs.a $b/protocol/libnoiseprotocol.a @LIBS@ -lpthread || exit 2
cd "$o" && timeout 120 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main(d):
    d = os.path.abspath(d); meta = json.load(open(d + "/meta.json"))
    conf = meta.get("conf", "ref"); libs = {"ref": "", "sodium": "-lsodium", "openssl": "-lcrypto"}[conf]
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO.replace("@CONF@", conf).replace("@LIBS@", libs).replace("@FLAGS@", meta.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); r = w + "/repo"
    try:
        sh("cp -a /repo %s" % r)
        for f in ("build.sh", "test.sh"): open(w + "/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", r).replace("/opt/vp/build.sh", w + "/build.sh"))
        sh("git -C %s checkout -q -- ." % r)
        b = sh("bash %s/build.sh" % w)
        if b.returncode: return "unchanged tree does not build: " + b.stderr[-500:]
        a = sh("bash %s/demo.sh" % d, cwd=r)
        if a.returncode: return "demo fails on the unchanged tree: rc %d %s %s" % (a.returncode, a.stdout[-300:], a.stderr[-800:])
        if os.path.exists(d + "/edit.json"):
            for f, o, n in json.load(open(d + "/edit.json")):
                s = open(r + "/" + f).read()
                if s.count(o) != 1: return "%s: %d matches for %r" % (f, s.count(o), o[:60])
                open(r + "/" + f, "w").write(s.replace(o, n))
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % r).stdout)
        else:
            p = sh("git -C %s apply %s/patch.diff" % (r, d))
            if p.returncode: return "patch does not apply: " + p.stderr
        t = sh("bash %s/test.sh %s/out.json" % (w, w))
        if not os.path.exists(w + "/out.json"): return "no tests: " + t.stderr[-800:]
        res = json.load(open(w + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        st = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
        bad = [x for x in st if x not in set(res["passed"])]
        if bad: return "tests fail: %d %s %s" % (len(bad), bad[:4], t.stderr[-500:])
        a = sh("bash %s/demo.sh" % d, cwd=r)
        if a.returncode == 0: return "demo passes with the patch"
        if a.returncode == 2: return "demo did not compile with the patch " + a.stderr[-300:]
        if os.path.exists(d + "/edit.json"): os.remove(d + "/edit.json")
        for k in ("conf", "flags"): meta.pop(k, None)
        json.dump(meta, open(d + "/meta.json", "w"), indent=1)
        return "confirmed (demo rc %d %s)" % (a.returncode, (a.stdout + a.stderr).strip()[-200:])
    finally: shutil.rmtree(w)
for d in sys.argv[1:]: print(os.path.basename(d.rstrip("/")), ":", main(d), flush=True)
