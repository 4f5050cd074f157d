"""Library functions, LLVM intrinsics and harness intrinsics for the symbolic executor."""
import re, time, z3
from . import term as T, poly
from .term import Term
from . import se as SE

M64 = (1 << 64) - 1
def uf_native(name, args, w):
    """the interpretation used by harness/vf_native.c"""
    fn = name.split(":")[0]; outlen = w // 8
    v, inw = args[0] if args else (0, 0); inlen = inw // 8
    d = v.to_bytes(inlen, "little") if inlen else b""
    h = 0xcbf29ce484222325 ^ (outlen * 0x9e3779b97f4a7c15 & M64)
    for c in fn.encode(): h = (h ^ c) * 0x100000001b3 & M64
    h ^= inlen * 0xff51afd7ed558ccd & M64
    for c in d: h = (h ^ c) * 0x100000001b3 & M64; h ^= h >> 29
    out = b""
    while len(out) < outlen:
        h = (h + 0x9e3779b97f4a7c15) & M64; z = h
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9 & M64; z = (z ^ (z >> 27)) * 0x94d049bb133111eb & M64; z ^= z >> 31
        out += z.to_bytes(8, "little")
    return int.from_bytes(out[:outlen], "little")
DHP = (1 << 61) - 1
def dh_exp(v, n): return uf_native("dhexp:8", [(v, 8 * n)], 64) | 1
def dh_fill(x, n):
    """n bytes carrying a 61-bit group element: the element, then filler derived from it"""
    out = x.to_bytes(8, "little"); z = x
    while len(out) < n:
        z = (z * 6364136223846793005 + 1442695040888963407) & M64; out += z.to_bytes(8, "little")
    return out[:n]
def dh_elem(p, n):
    b = p.to_bytes(n, "little"); x = int.from_bytes(b[1:9], "little")
    if b[0] == 1 and x < DHP and dh_fill(x, n - 1) == b[1:]: return x
    return uf_native("dhpt:8", [(p, 8 * n)], 64) % DHP
def ideal_eq(x, y, w):
    """equality under the assumption that distinct ideal functions, and distinct inputs of one, never collide, and that
    differences chosen by the environment do not depend on their values"""
    d = T.xor(x, y, w)
    if isinstance(d, int): return 1 if d == 0 else 0
    reg = {}; rest = {}
    for f, m in T.poly_of(d).items():
        if len(f) == 1 and T.BYID[f[0][0]].op == "uf": reg.setdefault((f[0][1], m), []).append(T.BYID[f[0][0]])
        else: rest[f] = m
    if not reg: return T.eq(x, y, w)
    c = T.eq0(T.from_poly(rest, w)) if rest else 1
    if isinstance(c, int) and not c: return 0
    for k, l in reg.items():
        g = {}
        for u in l: g.setdefault((u.args[0], u.w, tuple(q for _, q in u.args[1])), []).append(u)
        for us in g.values():
            if len(us) != 2: return 0
            for (v1, q1), (v2, q2) in zip(us[0].args[1], us[1].args[1]):
                if q1: c = T.and_(c, ideal_eq(v1, v2, q1), 1)
                if isinstance(c, int) and not c: return 0
    return c

def cstr(e, st, p):
    o, off = e.locate(st, p, 1, "string read"); b = bytearray()
    while o.data[off]: b.append(o.data[off]); off += 1
    return b.decode("latin1")

def rdn(e, st, addr, n):
    """value of n bytes (wide)"""
    if n == 0: return 0
    o, off = e.locate(st, addr, n, "read")
    return e.rd(st, o, off, n)
def wrn(e, st, addr, n, v):
    if n == 0: return
    o, off = e.locate(st, addr, n, "write")
    if o.kind == "const": raise SE.Violation("memory: write to constant object " + o.name)
    if o.own != st.own: o = o.copy(st.own); st.mem[addr >> 32] = o
    e.wr(o, off, n, v)
def copy(e, st, d, s, n):
    if n.__class__ is not int: n = e.conc(st, n)
    if n == 0: return
    if d.__class__ is not int: d = e.conc(st, d)
    if s.__class__ is not int: s = e.conc(st, s)
    so, sf = e.locate(st, s, n, "read")
    do, df = e.locate(st, d, n, "write")
    if do.kind == "const": raise SE.Violation("memory: write to constant object " + do.name)
    if do.own != st.own: do = do.copy(st.own); st.mem[d >> 32] = do
    if (s >> 32) == (d >> 32): so = do
    tg = bytes(so.tag[sf:sf + n]); dt = bytes(so.data[sf:sf + n])
    syms = [(k, so.sym[sf + k]) for k in range(n) if tg[k] == 2] if tg.count(2) else ()
    do.data[df:df + n] = dt; do.tag[df:df + n] = tg
    for k, v in syms: do.sym[df + k] = v

def install(e):
    H = e.handlers
    def reg(name):
        def d(f): H["@" + name] = f; return f
        return d
    @reg("memcpy")
    def _(st, d, s, n): copy(e, st, d, s, n); return d
    @reg("memmove")
    def _(st, d, s, n): copy(e, st, d, s, n); return d
    @reg("memset")
    def _(st, d, c, n):
        if n.__class__ is not int: n = e.conc(st, n)
        if d.__class__ is not int: d = e.conc(st, d)
        if n == 0: return d
        o, off = e.locate(st, d, n, "write")
        if o.kind == "const": raise SE.Violation("memory: write to constant object " + o.name)
        if o.own != st.own: o = o.copy(st.own); st.mem[d >> 32] = o
        if c.__class__ is int: o.data[off:off + n] = bytes([c & 255]) * n; o.tag[off:off + n] = b"\1" * n
        else:
            b = T.trunc(c, c.w, 8)
            for k in range(n): e.wr(o, off + k, 1, b)
        return d
    def alloc(st, n, zero):
        if n.__class__ is not int: n = e.conc(st, n)
        a = e.newobj(st, n, "heap", "heap block", bytes(n) if zero else None)
        return a
    @reg("malloc")
    def _(st, n): return alloc(st, n, False)
    @reg("calloc")
    def _(st, a, b):
        if a.__class__ is not int: a = e.conc(st, a)
        if b.__class__ is not int: b = e.conc(st, b)
        return alloc(st, a * b, True)
    @reg("vf_obj")
    def _(st, n, mx):
        if n.__class__ is int: return alloc(st, n, False)
        a = alloc(st, mx, False); o = st.mem[a >> 32]; o.lim = n; o.size = 0; o.name = "a block of symbolic size"
        return a
    @reg("free")
    def _(st, p):
        if p.__class__ is not int: p = e.conc(st, p)
        if p == 0: return None
        o = st.mem.get(p >> 32)
        if o is None: raise SE.Violation("memory: double free or free of an invalid pointer")
        if o.kind != "heap" or p & 0xFFFFFFFF: raise SE.Violation("memory: free of a pointer that was not allocated")
        if e.on_free: e.on_free(st, o)
        del st.mem[p >> 32]
    if not hasattr(e, "on_free"): e.on_free = None
    @reg("realloc")
    def _(st, p, n):
        if n.__class__ is not int: n = e.conc(st, n)
        if p.__class__ is not int: p = e.conc(st, p)
        a = alloc(st, n, False)
        if p:
            o = st.mem.get(p >> 32)
            if o is None or o.kind != "heap" or p & 0xFFFFFFFF: raise SE.Violation("memory: realloc of an invalid pointer")
            copy(e, st, a, p, min(n, o.size))
            del st.mem[p >> 32]
        return a
    @reg("abort")
    def _(st): raise SE.Violation("abort called")
    @reg("exit")
    def _(st, c): raise SE.EndPath()
    @reg("__assert_fail")
    def _(st, a, b, c, d): raise SE.Violation("assertion in the code failed: " + cstr(e, st, a))
    H["@stackless"] = None; del H["@stackless"]
    # ---- harness intrinsics
    def inp(w):
        def f(st, name):
            n = cstr(e, st, name); t = fresh(st, n, w); st.inputs.append((w, t)); return t
        return f
    def fresh(st, n, w):
        k = st.extra.get("cnt")
        if k is None: k = st.extra["cnt"] = {}
        c = k.get(n, 0); k[n] = c + 1
        return T.var(n if c == 0 else "%s#%d" % (n, c), w)
    for w in (8, 16, 32, 64): H["@vf_u%d" % w] = inp(w)
    @reg("vf_bytes")
    def _(st, p, n, name):
        if n.__class__ is not int: n = e.conc(st, n)
        nm = cstr(e, st, name)
        for k in range(n):
            t = fresh(st, nm, 8); st.inputs.append((8, t)); wrn(e, st, p + k, 1, t)
    @reg("vf_assume")
    def _(st, c):
        if c.__class__ is not int:
            b = T.not_(T.eq(c, 0, 32), 1)
            if b.__class__ is not int:
                k = st.known.get(b.id)
                if k == 1: return
                if k == 0: raise SE.EndPath()
                if e.sat(st, b) is False: raise SE.EndPath()
                e.assume(st, b, 1); return
            c = b
        if not c: raise SE.EndPath()
    @reg("vf_assert")
    def _(st, c, what):
        b = T.not_(T.eq(c, 0, 32), 1) if c.__class__ is not int else (1 if c else 0)
        e.check(st, b, cstr(e, st, what))
    @reg("vf_assert_eq")
    def _(st, a, b, n, what):
        if n.__class__ is not int: n = e.conc(st, n)
        if a.__class__ is not int: a = e.conc(st, a)
        if b.__class__ is not int: b = e.conc(st, b)
        e.check_eq(st, rdn(e, st, a, n), rdn(e, st, b, n), 8 * n, cstr(e, st, what))
    @reg("vf_same")
    def _(st, a, b, n):
        if n.__class__ is not int: n = e.conc(st, n)
        if n == 0: return 1
        return T.zext(T.eq(rdn(e, st, a, n), rdn(e, st, b, n), 8 * n), 1, 32)
    @reg("vf_identical")
    def _(st, a, b, n):
        if n == 0: return 1
        r = T.eq(rdn(e, st, a, n), rdn(e, st, b, n), 8 * n)
        return r if r.__class__ is int else 0
    # integer arithmetic modulo a prime, over limbs (see vlib/poly.py)
    def fld():
        if getattr(e, "fields", None) is None: e.fields = poly.Fields()
        return e.fields
    @reg("vf_bits")
    def _(st, name, w):
        t = fresh(st, cstr(e, st, name), w); st.inputs.append((w, t)); return T.zext(t, w, 64)
    @reg("vf_upto")
    def _(st, name, hi):
        w = hi.bit_length(); t = fresh(st, cstr(e, st, name), w); st.inputs.append((w, t)); fld().A.limits[t.args[0]] = hi; return T.zext(t, w, 64)
    @reg("vf_fdef")
    def _(st, p, sh, n, h): fld().define([rdn(e, st, p + 8 * k, 8) for k in range(n)], [rdn(e, st, sh + 4 * k, 4) for k in range(n)], h)
    @reg("vf_fmod")
    def _(st, k): fld().p = poly.MODS[k]
    @reg("vf_fe")
    def _(st, p, sh, n): return fld().new("limbs", [rdn(e, st, p + 8 * k, 8) for k in range(n)], [rdn(e, st, sh + 4 * k, 4) for k in range(n)])
    @reg("vf_fpow2")
    def _(st, k): return fld().new("const", 1 << k)
    @reg("vf_fsmall")
    def _(st, k): return fld().new("const", k)
    @reg("vf_fadd")
    def _(st, a, b): return fld().new("add", a, b, 1)
    @reg("vf_fsub")
    def _(st, a, b): return fld().new("add", a, b, -1)
    @reg("vf_fmul")
    def _(st, a, b): return fld().new("mul", a, b)
    def suspect(st, what, bad):
        """the general argument failed: look for inputs that break the statement"""
        for env in poly.samples(st.inputs, e.rng, fld().A.limits):
            c = {}
            ev = lambda t: T.evaluate(t, env, e.ufeval, c)
            if all(ev(pc) & 1 for pc in st.pcs) and bad(ev): raise SE.Violation(what, ("env", env))
        raise SE.Inconclusive("not decided: " + what)
    @reg("vf_fcheck")
    def _(st, a, b, what):
        F = fld(); what = cstr(e, st, what); t0 = time.time(); e.stats["asserts"] += 1; e.stats["queries"] += 1; e.stats["assert_solver"] += 1
        if F.residual(a, b): suspect(st, what, lambda ev: F.eval(a, ev) != F.eval(b, ev))
        r = F.decide(a, b); e.stats["solver_s"] += time.time() - t0
        if r != z3.unsat: raise SE.Inconclusive("solver: %s on: %s" % (r, what))
    @reg("vf_range")
    def _(st, p, hi, what):
        t = rdn(e, st, p, 8); what = cstr(e, st, what); e.stats["asserts"] += 1
        if fld().A.val(t)[1][1] > hi: suspect(st, what, lambda ev: ev(t) > hi)
        e.stats["assert_syntactic"] += 1
    @reg("vf_cover")
    def _(st, what): st.covers.append(cstr(e, st, what))
    @reg("vf_stop")
    def _(st):
        st.covers.append("(stop)")
        e.stats["paths"] += 1; e.finish(st); raise SE.EndPath()
    @reg("vf_uf")
    def _(st, fn, out, outlen, inp, inlen):
        if outlen.__class__ is not int: outlen = e.conc(st, outlen)
        if inlen.__class__ is not int: inlen = e.conc(st, inlen)
        v = rdn(e, st, inp, inlen) if inlen else 0
        t = T.uf(cstr(e, st, fn) + ":%d" % outlen, ((v, 8 * inlen),), 8 * outlen)
        wrn(e, st, out, outlen, t)
    @reg("vf_ideal_same")
    def _(st, a, b, n):
        if n.__class__ is not int: n = e.conc(st, n)
        if n == 0: return 1
        return T.zext(ideal_eq(rdn(e, st, a, n), rdn(e, st, b, n), 8 * n), 1, 32)
    def pubterm(v, n, alg):
        return T.concat([(1, 8), (T.uf("dhpub%d:%d" % (alg, n), ((v, 8 * n),), 8 * (n - 1)), 8 * (n - 1))])
    @reg("vf_pub")
    def _(st, out, priv, n, alg):
        wrn(e, st, out, n, pubterm(rdn(e, st, priv, n), n, alg))
    @reg("vf_dh")
    def _(st, out, priv, pub, n, alg):
        v = rdn(e, st, priv, n); p = rdn(e, st, pub, n)
        t = None
        if isinstance(p, Term):
            x = T.extract(p, 8, 8 * (n - 1)); b0 = T.extract(p, 0, 8)
            if b0 == 1 and isinstance(x, Term) and x.op == "uf" and x.args[0] == "dhpub%d:%d" % (alg, n):
                q = x.args[1][0][0]
                a, b = sorted((v, q), key=lambda x: (0, x) if isinstance(x, int) else (1, x.id))
                t = T.uf("dhss%d:%d" % (alg, n), ((a, 8 * n), (b, 8 * n)), 8 * n)
        if t is None: t = T.uf("dhx%d:%d" % (alg, n), ((v, 8 * n), (p, 8 * n)), 8 * n)
        wrn(e, st, out, n, t)
    def ev_pub(x, args): n = args[0][1] // 8; return int.from_bytes(dh_fill(pow(3, dh_exp(args[0][0], n), DHP), n - 1), "little")
    def ev_ss(x, args):
        n = x.w // 8; return int.from_bytes(dh_fill(pow(pow(3, dh_exp(args[0][0], n), DHP), dh_exp(args[1][0], n), DHP), n), "little")
    def ev_x(x, args):
        n = x.w // 8; return int.from_bytes(dh_fill(pow(dh_elem(args[1][0], n), dh_exp(args[0][0], n), DHP), n), "little")
    for a in range(8):
        e.uf_eval["dhpub%d" % a] = ev_pub; e.uf_eval["dhss%d" % a] = ev_ss; e.uf_eval["dhx%d" % a] = ev_x
    # functions of the code under test treated as ideal (their own correctness is another property's subject)
    for fn, kind in (e.opts.get("ideal") or {}).items():
        k = kind.split(); H["@" + fn] = ideal(e, H, k); e.override = set(e.override) | {"@" + fn}
    @reg("vf_is_symbolic")
    def _(st, p, n):
        o, off = e.locate(st, p, n, "read"); return 1 if o.tag[off:off + n].count(2) else 0
    @reg("vf_is_const")
    def _(st, p, n):
        o, off = e.locate(st, p, n, "read"); return 0 if o.tag[off:off + n].count(2) else 1
    @reg("vf_secret_leak")
    def _(st, p, n, prefix):
        return 0
    @reg("vf_heap_live")
    def _(st):
        return sum(1 for o in st.mem.values() if o.kind == "heap")
    @reg("__errno_location")
    def _(st):
        a = st.extra.get("errno")
        if a is None: a = st.extra["errno"] = e.newobj(st, 4, "global", "errno", bytes(4))
        return a
    for n in ("printf", "puts", "fprintf", "perror", "fflush", "putchar"): H["@" + n] = lambda st, *a: 0

def ideal(e, H, k):
    if k[0] == "pub":       # pub ALG LEN [swap]: (out, priv)
        alg, n, sw = int(k[1]), int(k[2]), len(k) > 3
        def f(st, a, b): (H["@vf_pub"](st, b, a, n, alg) if sw else H["@vf_pub"](st, a, b, n, alg)); return 0
        return f
    if k[0] == "dh":        # dh ALG LEN BASE RET: (out, priv, point); the base point gives the public key
        alg, n, base, ret = int(k[1]), int(k[2]), int(k[3]), k[4]
        def f(st, o, a, p):
            v = rdn(e, st, p, n)
            if v == base: H["@vf_pub"](st, o, a, n, alg)
            else: H["@vf_dh"](st, o, a, p, n, alg)
            if ret == "valid": return 1 if v == base else T.zext(T.trunc(T.uf("dhvalid%d:1" % alg, ((v, 8 * n),), 8), 8, 1), 1, 32)
            return int(ret)
        return f
    if k[0] == "sign":      # (m, mlen, sk, pk, sig)
        def f(st, m, ml, sk, pk, sig):
            if ml.__class__ is not int: ml = e.conc(st, ml)
            wrn(e, st, sig, 64, T.uf("sign:64", ((rdn(e, st, sk, 32), 256), (rdn(e, st, pk, 32), 256), (rdn(e, st, m, ml) if ml else 0, 8 * ml)), 512))
        return f
    if k[0] == "verify":    # (m, mlen, pk, sig) -> 0 or -1
        def f(st, m, ml, pk, sig):
            if ml.__class__ is not int: ml = e.conc(st, ml)
            b = T.trunc(T.uf("verify:1", ((rdn(e, st, pk, 32), 256), (rdn(e, st, m, ml) if ml else 0, 8 * ml), (rdn(e, st, sig, 64), 512)), 8), 8, 1)
            return T.sext(b, 1, 32)
        return f
    raise RuntimeError("ideal " + k[0])
def llvm(e, nm):
    if nm.startswith("@llvm.memcpy") or nm.startswith("@llvm.memmove"): return lambda st, d, s, n, v: copy(e, st, d, s, n)
    if nm.startswith("@llvm.memset"):
        h = e.handlers["@memset"]; return lambda st, d, c, n, v: h(st, d, c, n)
    if nm.startswith("@llvm.lifetime") or nm.startswith("@llvm.dbg") or nm.startswith("@llvm.experimental") or nm.startswith("@llvm.assume"): return "skip"
    if nm.startswith("@llvm.stacksave"): return lambda st: 0
    if nm.startswith("@llvm.stackrestore"): return "skip"
    if nm.startswith("@llvm.trap"): return lambda st: (_ for _ in ()).throw(SE.Violation("trap reached"))
    m = re.match(r"@llvm\.(\w+)\.i(\d+)$", nm)
    if m:
        op, w = m.group(1), int(m.group(2))
        if op == "bswap": return lambda st, v: T.concat([(T.extract(v, w - 8 - 8 * i, 8), 8) for i in range(w // 8)])
        if op == "fshl": return lambda st, a, b, c: T.or_(T.vshift("shl", a, c % w, w), T.vshift("lshr", b, w - c % w, w), w) if c % w else a
        if op == "fshr": return lambda st, a, b, c: T.or_(T.vshift("shl", a, w - c % w, w), T.vshift("lshr", b, c % w, w), w) if c % w else b
        if op == "abs": return lambda st, v, p: T.ite(T.bitof(v, w - 1), T.sub(0, v, w), v, w)
        if op == "umax": return lambda st, a, b: T.ite(T.ult(a, b, w), b, a, w)
        if op == "umin": return lambda st, a, b: T.ite(T.ult(a, b, w), a, b, w)
        if op == "smax": return lambda st, a, b: T.ite(T.slt(a, b, w), b, a, w)
        if op == "smin": return lambda st, a, b: T.ite(T.slt(a, b, w), a, b, w)
        if op == "expect": return lambda st, a, b: a
        if op == "ctpop": return lambda st, a: __import__("functools").reduce(lambda x, k: T.add(x, T.zext(T.bitof(a, k), 1, w), w), range(w), 0)
    m = re.match(r"@llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$", nm)
    if m:
        u, op, w = m.group(1), m.group(2), int(m.group(3))
        def f(st, a, b):
            W = 2 * w; x = T.zext if u == "u" else T.sext
            r = getattr(T, op)(x(a, w, W), x(b, w, W), W); lo = T.trunc(r, W, w)
            return (lo, T.not_(T.eq(x(lo, w, W), r, W), 1))
        return f
    return None
