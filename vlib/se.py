"""Symbolic executor over LLVM IR: explores every feasible path of a harness linked with the real sources."""
import time, random, os
import z3
from . import term as T
from .term import Term
from . import ir

class EndPath(Exception): pass
class Concretize(Exception):
    def __init__(s, t, pick=None): s.t = t
class Violation(Exception):
    def __init__(s, what, cond=None): s.what = what; s.cond = cond
class Inconclusive(Exception): pass

class Obj:
    __slots__ = ("size", "data", "tag", "sym", "own", "kind", "name", "nsym", "lim")
    # tag per byte: 0 undefined, 1 concrete, 2 symbolic
    def __init__(s, size, kind, name, own, init=None):
        s.size = size; s.kind = kind; s.name = name; s.own = own; s.sym = {}; s.lim = None
        if init is None: s.data = bytearray(size); s.tag = bytearray(size)
        else: s.data = bytearray(init); s.tag = bytearray(b"\1" * size)
    def copy(s, own):
        o = Obj.__new__(Obj); o.size = s.size; o.kind = s.kind; o.name = s.name; o.own = own; o.lim = s.lim
        o.data = bytearray(s.data); o.tag = bytearray(s.tag); o.sym = dict(s.sym)
        return o
class Frame:
    __slots__ = ("fn", "seg", "r", "dreg", "allocas")
    def __init__(s, fn):
        if not fn.nregs:
            for b in fn.order: fn.mod.instrs(fn, b)
            fn.nregs = len(fn.regidx) + 1
        s.fn = fn; s.seg = None; s.r = [None] * fn.nregs; s.dreg = None; s.allocas = []
_own = [0]
class State:
    __slots__ = ("mem", "frames", "pcs", "known", "concr", "inputs", "covers", "own", "nextobj", "model", "both", "pc", "steps", "extra", "undef", "depth", "log")
    def fork(s):
        n = State()
        n.mem = dict(s.mem); n.pcs = list(s.pcs); n.known = dict(s.known); n.concr = dict(s.concr); n.inputs = list(s.inputs); n.covers = list(s.covers)
        _own[0] += 1; n.own = _own[0]; _own[0] += 1; s.own = _own[0]
        n.nextobj = s.nextobj; n.model = s.model; n.both = s.both; n.pc = s.pc; n.steps = 0; n.undef = s.undef; n.depth = s.depth + 1
        n.extra = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in s.extra.items()}
        n.frames = []
        for f in s.frames:
            g = Frame.__new__(Frame); g.fn = f.fn; g.seg = f.seg; g.r = list(f.r); g.dreg = f.dreg; g.allocas = list(f.allocas); n.frames.append(g)
        return n

MASK64 = (1 << 64) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

class Engine:
    def __init__(s, mod, opts=None):
        s.mod = mod; s.opts = opts or {}
        s.stats = dict(paths=0, steps=0, forks=0, queries=0, solver_s=0.0, asserts=0, assert_syntactic=0, assert_solver=0, ended=0)
        s.covers = {}; s.addr = {}; s.faddr = {}; s.byaddr = {}; s.violations = []; s.inconcl = []
        s.handlers = {}; s.fnsused = set(); s.deadline = None; s.path_models = []
        s.timeout_ms = int(s.opts.get("query_timeout_ms", 60000))
        s.rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        s.init_globals()
        from . import libc
        libc.install(s)
    # ------------------------------------------------------------ memory
    def init_globals(s):
        st = State(); st.mem = {}; st.frames = []; st.pcs = []; st.known = {}; st.concr = {}; st.inputs = []; st.covers = []; st.own = 0
        st.nextobj = 16; st.model = [{}, None]; st.both = None; st.pc = 0; st.steps = 0; st.extra = {}; st.undef = 0; st.depth = 0; st.log = None
        s.st0 = st
        fid = 0x100000
        for n, f in s.mod.funcs.items(): s.faddr[n] = fid << 32; s.byaddr[fid << 32] = f; fid += 1
        for n in s.mod.decls:
            if n not in s.faddr: s.faddr[n] = fid << 32; s.byaddr[fid << 32] = n; fid += 1
        for n, (t, init, const) in s.mod.globals.items():
            if n.startswith("@llvm."): continue
            oid = st.nextobj; st.nextobj += 1
            s.addr[n] = oid << 32
            st.mem[oid] = Obj(t.size, "const" if const else "global", n, 0, bytes(t.size))
        for n, (t, init, const) in s.mod.globals.items():
            if n.startswith("@llvm.") or init is None: continue
            o = st.mem[s.addr[n] >> 32]
            s.put_const(o, 0, t, init)
    def gaddr(s, n):
        if n in s.addr: return s.addr[n]
        if n in s.faddr: return s.faddr[n]
        raise Inconclusive("unknown symbol " + n)
    def cval(s, c):
        """scalar constant -> int"""
        if c[0] == "c": return c[1]
        if c[0] == "g": return (s.gaddr(c[1]) + c[2]) & MASK64
        if c[0] == "ce":
            a, b = s.cval(c[2]), s.cval(c[3]); return (a + b if c[1] == "add" else a - b) & ((1 << c[4]) - 1)
        if c[0] == "z": return 0
        raise Inconclusive("const " + repr(c[:2]))
    def put_const(s, o, off, t, c):
        if c[0] == "z" : return
        if c[0] == "u": return
        if c[0] == "s": o.data[off:off + len(c[1])] = c[1]; return
        if c[0] == "agg":
            if t.k == "struct":
                for i, e in enumerate(c[1]): s.put_const(o, off + t.offs[i], t.fields[i], e)
            else:
                for i, e in enumerate(c[1]): s.put_const(o, off + i * t.e.size, t.e, e)
            return
        v = s.cval(c); o.data[off:off + t.size] = v.to_bytes(t.size, "little")
    def newobj(s, st, size, kind, name, init=None):
        oid = st.nextobj; st.nextobj += 1
        st.mem[oid] = Obj(size, kind, name, st.own, init)
        return oid << 32
    def locate(s, st, addr, n, what):
        """concrete address -> (obj, off)"""
        o = st.mem.get(addr >> 32)
        off = addr & 0xFFFFFFFF
        if o is None:
            raise Violation("memory: %s of %d bytes through an invalid or dead pointer" % (what, n))
        if off + n > o.size and o.lim is not None and n:
            # object of symbolic size: o.size is the part already shown to exist on this path
            bad = T.ult(o.lim, off + n, 64); what = "memory: %s of %d bytes at offset %d beyond the symbolic size of %s" % (what, n, off, o.name)
            if isinstance(bad, int):
                if bad: raise Violation(what)
            else:
                s.stats["asserts"] += 1; s.stats["assert_solver"] += 1
                r = s.sat(st, bad)
                if r is None: s.inconcl.append("solver gave up: " + what)
                elif r: raise Violation(what, bad)
            if off + n > len(o.data): raise Violation("memory: beyond the largest size of " + o.name)
            if o.own != st.own: o = o.copy(st.own); st.mem[addr >> 32] = o
            o.size = off + n
        if off + n > o.size:
            raise Violation("memory: %s of %d bytes at offset %d of %d-byte object %s" % (what, n, off, o.size, o.name))
        return o, off
    def undef_byte(s, st):
        st.undef += 1
        return T.var("undef!%d" % st.undef, 8)
    def rdbyte(s, st, o, off):
        tg = o.tag[off]
        if tg == 1: return o.data[off]
        if tg == 2:
            t, i = o.sym[off]
            return T.extract(t, 8 * i, 8) if t.w > 8 else t
        if o.own != st.own: o = s.cow(st, o)
        u = s.undef_byte(st); o.sym[off] = (u, 0); o.tag[off] = 2
        return u
    def cow(s, st, o):
        for k, v in st.mem.items():      # rare
            if v is o:
                c = o.copy(st.own); st.mem[k] = c; return c
        return o
    def rd(s, st, o, off, n):
        """n bytes as one little-endian value"""
        tg = o.tag[off:off + n]
        if tg.count(1) == n: return int.from_bytes(o.data[off:off + n], "little")
        if tg[0] == 2:
            t, i = o.sym[off]
            if i == 0 and t.w == 8 * n:
                sy = o.sym
                for k in range(1, n):
                    e = sy.get(off + k)
                    if e is None or e[0] is not t or e[1] != k or tg[k] != 2: break
                else: return t
        parts = []; k = 0
        while k < n:
            if tg[k] == 1:
                j = k
                while j < n and tg[j] == 1: j += 1
                parts.append((int.from_bytes(o.data[off + k:off + j], "little"), 8 * (j - k))); k = j
            elif tg[k] == 2:
                t, i = o.sym[off + k]; j = k + 1
                while j < n and tg[j] == 2:
                    e = o.sym[off + j]
                    if e[0] is t and e[1] == i + (j - k): j += 1
                    else: break
                parts.append((T.extract(t, 8 * i, 8 * (j - k)) if (t.w != 8 * (j - k)) else t, 8 * (j - k))); k = j
            else:
                parts.append((s.rdbyte(st, o, off + k), 8)); k += 1
                if o.own != st.own: o = st.mem_of(o) if False else s.refetch(st, o)
        return T.concat(parts)
    def refetch(s, st, o): return o
    def wr(s, o, off, n, v):
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, "little"); o.tag[off:off + n] = b"\1" * n
        else:
            sy = o.sym
            for i in range(n): sy[off + i] = (v, i)
            o.tag[off:off + n] = b"\2" * n
    def ld(s, st, addr, n, w):
        if addr.__class__ is not int: return s.ld_sym(st, addr, n, w)
        o = st.mem.get(addr >> 32); off = addr & 0xFFFFFFFF
        if o is None or off + n > o.size: o, off = s.locate(st, addr, n, "read")
        if o.own != st.own and o.tag.find(0, off, off + n) >= 0:
            o = o.copy(st.own); st.mem[addr >> 32] = o
        v = s.rd(st, o, off, n)
        if w != 8 * n: v = v & ((1 << w) - 1) if v.__class__ is int else T.trunc(v, 8 * n, w)
        return v
    def stv(s, st, addr, n, v):
        if addr.__class__ is not int: addr = s.conc(st, addr)
        o = st.mem.get(addr >> 32); off = addr & 0xFFFFFFFF
        if o is None or off + n > o.size: o, off = s.locate(st, addr, n, "write")
        if o.kind == "const": raise Violation("memory: write to constant object " + o.name)
        if o.own != st.own: o = o.copy(st.own); st.mem[addr >> 32] = o
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, "little"); o.tag[off:off + n] = b"\1" * n
        else:
            if v.w != 8 * n: v = T.zext(v, v.w, 8 * n); 
            if v.__class__ is not int and v.w != 8 * n: v = s.widen(v, 8 * n)
            sy = o.sym
            for i in range(n): sy[off + i] = (v, i)
            o.tag[off:off + n] = b"\2" * n
    def widen(s, v, w): return T.mk("name", (v,), w)
    def split_addr(s, addr):
        """symbolic address -> (objid, constant offset, symbolic rest) or None"""
        if addr.op == "add":
            c = addr.args[0]; oid = ((c + 0x80000000) & MASK64) >> 32
            if oid:
                return oid, sgn((c - (oid << 32)) & MASK64, 64), T.sub(addr, c, 64)
        if addr.op == "B":
            c = addr.poly.get((), 0)
            if c >> 32:
                v = T.xor(addr, c, 64).sup
                if v >> 32 == 0:
                    b = c & ~v      # constant bits under the varying ones stay with the index
                    return c >> 32, b & 0xFFFFFFFF, T.xor(addr, b, 64)
        return None
    def ld_sym(s, st, addr, n, w):
        if addr.id in st.concr: return s.ld(st, st.concr[addr.id], n, w)
        sp = s.split_addr(addr)
        if s.opts.get("ct") and s.secret(addr): raise Violation("secret-dependent address in a load")
        if sp:
            oid, c, rest = sp
            o = st.mem.get(oid)
            if o is not None and o.lim is None and isinstance(rest, Term):
                sup = rest.sup; k = (sup & -sup).bit_length() - 1; nb = sup.bit_length() - k
                if nb <= 10:
                    idx = T.extract(rest, k, nb); N = 1 << nb
                    bad = []
                    for i in range(N):
                        if i & ~(sup >> k): continue
                        off = c + (i << k)
                        if off < 0 or off + n > o.size: bad.append(i)
                    if bad:
                        cond = 0
                        for i in bad: cond = T.or_(cond, T.eq(idx, i, nb), 1)
                        if s.sat(st, cond): raise Violation("memory: read of %d bytes outside %d-byte object %s" % (n, o.size, o.name), cond)
                    parts = []
                    conc = all(o.tag[max(0, c + (i << k)):max(0, c + (i << k)) + n].count(1) == n for i in range(N) if i not in bad and not (i & ~(sup >> k)))
                    if conc:
                        for j in range(n):
                            tb = bytes(o.data[c + (i << k) + j] if i not in bad and not (i & ~(sup >> k)) else 0 for i in range(N)) if bad or sup >> k != N - 1 else bytes(o.data[c + j:c + j + (N << k):1 << k][:N])
                            parts.append((T.lut(tb, idx, nb), 8))
                        v = T.concat(parts)
                    elif nb <= 8:
                        vals = [s.rd(st, o, c + (i << k), n) if i not in bad else 0 for i in range(N)]
                        for b in range(nb):
                            vals = [T.ite(T.bitof(idx, b), vals[2 * q + 1], vals[2 * q], 8 * n) for q in range(len(vals) // 2)]
                        v = vals[0]
                    else: v = None
                    if v is not None:
                        if w != 8 * n: v = v & ((1 << w) - 1) if isinstance(v, int) else T.trunc(v, 8 * n, w)
                        return v
        return s.ld(st, s.conc(st, addr), n, w)
    # ------------------------------------------------------------ decisions
    def conc(s, st, t):
        if t.__class__ is int: return t
        v = st.concr.get(t.id)
        if v is not None: return v
        raise Concretize(t)
    def solver(s, pcs):
        sv = z3.Solver(); sv.set("timeout", s.timeout_ms)
        for p in pcs: sv.add(T.to_z3(p) == 1)
        return sv
    def relevant(s, pcs, cond):
        """path conditions sharing variables (transitively) with cond"""
        if not pcs: return []
        def vs(t):
            k = t.id
            r = s._vc.get(k)
            if r is None:
                r = frozenset(s.leafs(t)); s._vc[k] = r
            return r
        want = set(vs(cond)); rest = list(pcs); out = []
        ch = True
        while ch:
            ch = False; nr = []
            for p in rest:
                if vs(p) & want: out.append(p); want |= vs(p); ch = True
                else: nr.append(p)
            rest = nr
        return out
    _vc = {}
    def secret(s, t):
        """whether t depends on an input whose name does not start with one of the public prefixes"""
        pub = tuple(s.opts.get("public", ("public",)))
        seen = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x.__class__ is int or x.id in seen: continue
            seen.add(x.id)
            if x.op == "var" and not str(x.args[0]).startswith(pub): return True
            if x.op == "uf": stk.extend(a for a, w in x.args[1])
            else: stk.extend(T.children(x))
        return False
    def leafs(s, t):
        seen = set(); out = set(); stk = [t]
        while stk:
            x = stk.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in ("var", "uf"): out.add(x.id)
            if x.op != "uf": stk.extend(T.children(x))
        return out
    def sat(s, st, cond, want_model=False):
        """is cond feasible with the path condition?  True/False/None"""
        if isinstance(cond, int):
            return bool(cond) if not want_model else ({} if cond else None)
        pcs = s.relevant(st.pcs, cond)
        key = (cond.id, frozenset(p.id for p in pcs))
        if key in s._satc: v, s.lastmodel = s._satc[key]; return v
        t0 = time.time(); s.stats["queries"] += 1
        # most queries are tiny: the plain incremental core first, the full portfolio of tactics when that does not settle it
        sv = z3.SimpleSolver(); sv.set("timeout", 1500); q = [T.to_z3(p) == 1 for p in pcs]; q.append(T.to_z3(cond) == 1); sv.add(q)
        r = sv.check()
        if r == z3.unknown: sv = s.solver(pcs); sv.add(q[-1]); r = sv.check()
        s.stats["solver_s"] += time.time() - t0
        v = True if r == z3.sat else False if r == z3.unsat else None
        s.lastmodel = s.env_of(sv.model()) if v else None
        s._satc[key] = v, s.lastmodel
        return v
    lastmodel = None
    # A state carries a model of its path condition (a solver's answer to an earlier query): a condition true in it needs no query.
    def under(s, st, c):
        m = st.model
        if m is None: return None
        if m[1] is None: m[1] = {}
        env = m[0]
        return T.evaluate(c, env, lambda x, a: env.get("uf!%d" % x.id, 0), m[1])
    def merged(s, st, env):
        if st.model is None or env is None: return None
        return [{**st.model[0], **env}, None]
    _satc = {}
    def env_of(s, m):
        e = {}
        for d in m.decls():
            v = m[d]
            if z3.is_bv_value(v): e[d.name()] = v.as_long()
        return e
    def full_model(s, st, cond=None):
        sv = s.solver(st.pcs)
        if cond is not None and not isinstance(cond, int): sv.add(T.to_z3(cond) == 1)
        t0 = time.time(); r = sv.check(); s.stats["queries"] += 1; s.stats["solver_s"] += time.time() - t0
        return s.env_of(sv.model()) if r == z3.sat else None
    def decide(s, st, c):
        """(can be true, can be false)"""
        k = st.known.get(c.id)
        if k is not None: return k == 1, k == 0
        u = s.under(st, c); st.both = None
        mt = mf = None
        if u == 1: t, mt = True, st.model
        else:
            t = s.sat(st, c)
            if t is False: return False, True
            if t: mt = s.merged(st, s.lastmodel)
        if u == 0: f, mf = True, st.model
        else:
            f = s.sat(st, T.not_(c, 1))
            if f is False: return True, False
            if f: mf = s.merged(st, s.lastmodel)
        st.both = (c.id, mf, mt)
        # undecided: both sides are explored (an over-approximation, so still sound)
        if t is None or f is None: s.stats["undecided"] = s.stats.get("undecided", 0) + 1
        return True, True
    def assume(s, st, c, val):
        if val == 0: c2 = T.not_(c, 1)
        else: c2 = c
        st.known[c.id] = val
        if isinstance(c2, Term): st.known[c2.id] = 1; st.pcs.append(c2); n = T.not_(c2, 1); st.known[n.id] = 0 if isinstance(n, Term) else 0
        b = st.both
        if b is not None and b[0] == c.id: st.model = b[2 if val else 1]
        elif isinstance(c2, Term) and st.model is not None and s.under(st, c2) != 1:
            t = s.sat(st, c2); st.model = s.merged(st, s.lastmodel) if t else None
        st.both = None
    def inputs_under(s, st, env):
        return [(w, T.evaluate(t, env, s.ufeval)) for w, t in st.inputs]
    def ufeval(s, x, args):
        from .libc import uf_native
        f = s.uf_eval.get(x.args[0].split(":")[0])
        if f: return f(x, args)
        return uf_native(x.args[0], args, x.w)
    uf_eval = {}
    def check(s, st, c, what):
        """assert c (1-bit)"""
        s.stats["asserts"] += 1
        if isinstance(c, int):
            if c: s.stats["assert_syntactic"] += 1; return
            raise Violation(what)
        if st.known.get(c.id) == 1: s.stats["assert_syntactic"] += 1; return
        n = T.not_(c, 1)
        # cheap search for a counterexample by evaluation
        env = s.find_env(st, n)
        if env is not None: raise Violation(what, ("env", env))
        r = s.sat(st, n)
        s.stats["assert_solver"] += 1
        if r is True and s.congruent(st, n) is False: return
        if r is True: raise Violation(what, n)
        if r is None: s.inconcl.append("solver gave up on assertion: " + what)
    def congruent(s, st, cond):
        """is cond still feasible when equal arguments give equal results of the uninterpreted functions?"""
        fs = {}; seen = set(); cond = [cond] if isinstance(cond, Term) else []; stk = list(st.pcs) + cond
        while stk:
            x = stk.pop()
            if x.id in seen: continue
            seen.add(x.id); stk.extend(T.children(x))
            if x.op == "uf": fs.setdefault((x.args[0], tuple(w for a, w in x.args[1])), []).append(x)
        ax = []
        for (nm, ws), l in fs.items():
            for i in range(len(l)):
                for j in range(i):
                    e = z3.And([(z3.BitVecVal(a, w) if isinstance(a, int) else T.to_z3(a)) == (z3.BitVecVal(b, w) if isinstance(b, int) else T.to_z3(b)) for (a, w), (b, _) in zip(l[i].args[1], l[j].args[1]) if w])
                    ax.append(z3.Implies(e, T.to_z3(l[i]) == T.to_z3(l[j])))
        if not ax or len(ax) > 400: return None
        sv = s.solver(list(st.pcs) + cond); sv.add(ax); t0 = time.time(); r = sv.check(); s.stats["solver_s"] += time.time() - t0; s.stats["queries"] += 1
        return False if r == z3.unsat else True if r == z3.sat else None
    def find_env(s, st, cond, tries=6):
        vs = T.vars_of([cond]); base = {}
        if st.pcs:
            base = s.full_model(st) or None
            if base is None: return None
            fixed = set()
            for p in st.pcs: fixed |= set(T.vars_of([p]))
        else: fixed = set()
        for k in range(tries):
            env = dict(base)
            for n, v in vs.items():
                if n not in fixed:
                    m = s.rng.random()
                    env[n] = s.rng.getrandbits(v.w) if m < 0.7 else (0 if m < .85 else (1 << v.w) - 1)
            cache = {}
            if T.evaluate(cond, env, s.ufeval, cache) and all(T.evaluate(p, env, s.ufeval, cache) for p in st.pcs): return env
        return None
    # ------------------------------------------------------------ execution
    def start(s, fname):
        f = s.mod.funcs[fname]; st = s.st0
        fr = Frame(f); fr.seg = s.seg(f, f.order[0], 0); st.frames.append(fr)
        return st
    def explore(s, fname, max_paths=100000):
        work = [s.start(fname)]
        while work:
            if s.violations and not s.opts.get("keep_going"): break
            st = work.pop()
            s.work = work
            if s.deadline and time.time() > s.deadline: s.inconcl.append("time budget exhausted with %d states left" % (len(work) + 1)); break
            if s.stats["paths"] >= max_paths: s.inconcl.append("path limit"); break
            try:
                s.run(st, work)
                s.stats["paths"] += 1; s.finish(st)
            except EndPath: s.stats["ended"] += 1
            except Violation as v: s.report(st, v)
            except Inconclusive as e: s.inconcl.append(str(e) + " " + s.where(st))
    def finish(s, st):
        for c in st.covers: s.covers[c] = s.covers.get(c, 0) + 1
        if len(s.path_models) < s.opts.get("validate", 3):
            env = s.full_model(st) if st.pcs else {}
            if env is not None:
                e2 = dict(env)
                for w, t in st.inputs:
                    if t.op == "var" and t.args[0] not in e2: e2[t.args[0]] = 0 if st.pcs else s.rng.getrandbits(w)
                if all(T.evaluate(p, e2, s.ufeval) for p in st.pcs):
                    s.path_models.append((s.inputs_under(st, e2), list(st.covers)))
    def repair(s, st, cond, env):
        """move a model to one in which the uninterpreted functions have the values the native replay gives them"""
        pcs = list(st.pcs); c = cond if isinstance(cond, Term) else None
        if c is not None: pcs.append(c)
        if all(T.evaluate(p, env, s.ufeval) for p in pcs): return env
        ufs = {}; stk = list(pcs); seen = set()
        while stk:
            x = stk.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == "uf": ufs[x.id] = x
            stk.extend(T.children(x))
        sv = s.solver(pcs)
        if sv.check() != z3.sat: return env
        best = s.env_of(sv.model()); t0 = time.time()
        for k in sorted(ufs):
            x = ufs[k]; zx = T.to_z3(x)
            for tr in range(4):
                if time.time() - t0 > 60: break
                m = sv.model(); av = []; eqs = []
                for a, w in x.args[1]:
                    if isinstance(a, int): av.append((a, w)); continue
                    za = T.to_z3(a); q = m.eval(za, model_completion=True).as_long(); av.append((q, w)); eqs.append(za == q)
                val = s.ufeval(x, av) & T.full(x.w); sv.push()
                for q in eqs: sv.add(q)
                sv.add(zx == val)
                if sv.check() == z3.sat: best = s.env_of(sv.model()); break
                sv.pop()
                if eqs: sv.push(); sv.add(z3.Not(z3.And(eqs)))
                if sv.check() != z3.sat: sv.pop() if eqs else None; sv.check(); break
        return best
    def where(s, st):
        return " < ".join(f.fn.name for f in reversed(st.frames[-5:])) if st.frames else ""
    def report(s, st, v):
        env = None
        if not isinstance(v.cond, tuple) and s.congruent(st, v.cond) is False:
            if isinstance(v.cond, Term) and s.congruent(st, None) is not False: s.inconcl.append("violation excluded only by congruence: " + v.what)
            else: s.stats["ended"] += 1
            return
        if v.cond is None: env = s.full_model(st) if st.pcs else {}
        elif isinstance(v.cond, tuple): env = v.cond[1]
        else: env = s.full_model(st, v.cond)
        if env is None:
            # path itself infeasible or undecided
            s.inconcl.append("no model for suspected violation: " + v.what); return
        env = s.repair(st, v.cond, env)
        for w, t in st.inputs:
            if t.op == "var" and t.args[0] not in env: env[t.args[0]] = s.rng.getrandbits(w) if s.opts.get("rand_fill", 1) else 0
        s.violations.append(dict(what=v.what, where=s.where(st), inputs=s.inputs_under(st, env), covers=list(st.covers)))
    def run(s, st, work):
        frames = st.frames; steps = 0
        while True:
            fr = frames[-1]; seg = fr.seg; r = fr.r
            steps += 1
            if steps & 1023 == 0 and s.deadline and time.time() > s.deadline: raise Inconclusive("time budget exhausted")
            try:
                a = seg.f(st, r)
                while a.__class__ is int:
                    seg = fr.seg = fr.fn.segs[a]
                    steps += 1
                    if steps & 8191 == 0:
                        if s.deadline and time.time() > s.deadline: raise Inconclusive("time budget exhausted")
                        if steps > s.opts.get("max_steps", 30000000): raise Violation("no termination within %d blocks" % steps)
                    a = seg.f(st, r)
            except Concretize as e:
                s.concretize(st, work, fr, seg, e.t)
                continue
            s.stats["steps"] += 1
            k = a[0]
            if k == 0:      # call: (0, callee, args, dreg, nextseg)
                fn = a[1]
                if fn.__class__ is not ir.Func:
                    v = fn
                    if v.__class__ is not int:
                        v = st.concr.get(v.id)
                        if v is None:
                            st.pc = a[5]; s.concretize(st, work, fr, seg, a[1]); continue
                    fn = s.byaddr.get(v)
                    if fn is None: raise Violation("call through an invalid function pointer")
                    if fn.__class__ is str:
                        h = s.handlers.get(fn)
                        if h is None: raise Inconclusive("call to unmodelled function " + fn)
                        st.pc = a[5]
                        try: res = h(st, *a[2])
                        except Concretize as e: s.concretize(st, work, fr, seg, e.t); continue
                        if a[3] is not None: r[a[3]] = res
                        fr.seg = fr.fn.segs[a[4]]; continue
                s.fnsused.add(fn.name)
                fr.seg = fr.fn.segs[a[4]]; fr.dreg = a[3]
                nf = Frame(fn); nr = nf.r
                args = a[2]
                np = len(fn.params)
                for i in range(np): nr[i] = args[i]
                nf.seg = s.seg(fn, fn.order[0], 0)
                if len(frames) > 400: raise Violation("unbounded recursion")
                frames.append(nf)
            elif k == 1:    # ret
                if s.on_ret: s.on_ret(st, fr)
                for oid in fr.allocas: st.mem.pop(oid, None)
                frames.pop()
                if not frames: return
                cf = frames[-1]
                if cf.dreg is not None: cf.r[cf.dreg] = a[1]
            elif k == 2:    # symbolic branch: (2, cond, pred, A, B)
                c = a[1]
                kv = st.known.get(c.id)
                if kv is None:
                    if s.opts.get("ct") and s.secret(c): raise Violation("secret-dependent branch")
                    ct, cf_ = s.decide(st, c)
                    if ct and cf_:
                        o = st.fork(); s.stats["forks"] += 1
                        s.assume(o, c, 0); s.jump(o, o.frames[-1], a[2], a[4]); work.append(o)
                        s.assume(st, c, 1); kv = 1
                    else:
                        kv = 1 if ct else 0
                        st.known[c.id] = kv
                s.jump(st, fr, a[2], a[3] if kv else a[4])
            elif k == 3:    # symbolic switch: (3, val, w, pred, default, [(c,tgt)])
                v, w, pred, df, cs = a[1:]
                done = False; targets = []
                rest = st; neg = 1
                for cv, tg in cs:
                    e = T.eq(v, cv, w)
                    if isinstance(e, int):
                        if e: targets = targets + [(1, tg)]; done = True; break
                        continue
                    targets.append((e, tg))
                # sequential decision
                for e, tg in targets:
                    if isinstance(e, int): s.jump(st, fr, pred, tg); break
                    if s.opts.get("ct") and e.id not in st.known and s.secret(e): raise Violation("secret-dependent branch")
                    ct, cf_ = s.decide(st, e)
                    if ct and cf_:
                        o = st.fork(); s.stats["forks"] += 1
                        s.assume(o, e, 1); s.jump(o, o.frames[-1], pred, tg); work.append(o)
                        s.assume(st, e, 0)
                    elif ct: s.jump(st, fr, pred, tg); break
                else: s.jump(st, fr, pred, df)
            else: raise Inconclusive("bad action")
    on_ret = None
    def concretize(s, st, work, fr, seg, t):
        if s.opts.get("ct") and s.secret(t): raise Violation("secret-dependent address or length")
        # enumerate feasible values
        vals = []; sv = s.solver(s.relevant(st.pcs, t)); z = T.to_z3(t)
        lim = s.opts.get("max_concretize", 300)
        t0 = time.time()
        while len(vals) <= lim:
            s.stats["queries"] += 1
            r = sv.check()
            if r == z3.unknown: raise Inconclusive("solver gave up while enumerating values")
            if r != z3.sat: break
            m = sv.model(); v = m.eval(z, model_completion=True).as_long()
            vals.append((v, s.env_of(m))); sv.add(z != v)
        s.stats["solver_s"] += time.time() - t0
        if len(vals) > lim: raise Inconclusive("too many values for a symbolic address or length: " + T.show(t, 3))
        if not vals: raise EndPath()
        seg2 = s.seg(fr.fn, seg.block, st.pc)
        fr.seg = seg2
        vals.sort(key=lambda x: x[0])
        for v in vals[1:]:
            o = st.fork(); s.stats["forks"] += 1
            s.fixval(o, t, v); work.append(o)
        s.fixval(st, t, vals[0])
    def fixval(s, st, t, ve):
        v, env = ve; st.concr[t.id] = v; st.model = s.merged(st, env); st.both = None
        e = T.eq(t, v, t.w)
        if isinstance(e, Term): st.pcs.append(e); st.known[e.id] = 1
    # ------------------------------------------------------------ code generation
    def jump(s, st, fr, pred, tgt):
        e = s.edge(fr.fn, pred, tgt)
        if e: e(st, fr.r)
        fr.seg = s.seg(fr.fn, tgt, s.nphi(fr.fn, tgt))
    def nphi(s, f, b):
        return 0
    def edge(s, f, pred, tgt):
        k = ("e", pred, tgt); e = f.code.get(k)
        if e is None:
            src = s.phi_src(f, pred, tgt, {})
            if not src: e = f.code[k] = False
            else:
                ns = dict(s.ns()); exec("def F(st, r):\n" + "\n".join("  " + x for x in src), ns); e = f.code[k] = ns["F"]
        return e
    def ns(s):
        if not hasattr(s, "_ns"):
            d = {"T_" + n: getattr(T, n) for n in ("add", "sub", "mul", "xor", "and_", "or_", "shl", "lshr", "ashr", "zext", "sext", "trunc", "vshift", "udiv", "urem", "sdiv", "srem", "icmp", "ite", "concat", "extract")}
            d.update(ld=s.ld, stv=s.stv, E=s, Concretize=Concretize, Violation=Violation, EndPath=EndPath, alloca=s.alloca, unreach=s.unreach,
                     ldx=s.ldx, stx=s.stx, sgn=sgn, asmx=s.asmx, MASK64=MASK64, getf=s.getf)
            d["H"] = s.handlers
            s._ns = d
        return s._ns
    def getf(s, n): return s.mod.funcs[n]
    def unreach(s): raise Violation("reached code the compiler marks unreachable")
    def asmx(s, st, txt, cons, t, args):
        from . import asm
        return asm.run(s, st, txt, cons, t, args)
    def alloca(s, st, size, n, name):
        if n.__class__ is not int: n = s.conc(st, n)
        a = s.newobj(st, size * n, "stack", name)
        st.frames[-1].allocas.append(a >> 32)
        return a
    def ldx(s, st, a, t):
        """aggregate load"""
        if a.__class__ is not int: a = s.conc(st, a)
        if t.k in ("i", "ptr"): return s.ld(st, a, (t.n + 7) // 8, t.n)
        if t.k in ("arr", "vec"): return tuple(s.ldx(st, a + i * ((t.e.n + 7) // 8 if t.k == "vec" else t.e.size), t.e) for i in range(t.n))
        if t.k == "struct": return tuple(s.ldx(st, a + t.offs[i], x) for i, x in enumerate(t.fields))
        raise Inconclusive("load of type " + t.k)
    def stx(s, st, a, t, v):
        if a.__class__ is not int: a = s.conc(st, a)
        if t.k in ("i", "ptr"): s.stv(st, a, (t.n + 7) // 8, v); return
        if t.k in ("arr", "vec"):
            for i in range(t.n): s.stx(st, a + i * ((t.e.n + 7) // 8 if t.k == "vec" else t.e.size), t.e, v[i])
        elif t.k == "struct":
            for i, x in enumerate(t.fields): s.stx(st, a + t.offs[i], x, v[i])
        else: raise Inconclusive("store of type " + t.k)
    def aggconst(s, c, t):
        if t.k in ("i", "ptr"): return "0" if c[0] == "u" else str(s.cval(c))
        if c[0] in ("z", "u"):
            n = t.n if t.k in ("arr", "vec") else len(t.fields)
            return "(" + "".join(s.aggconst(c, t.e if t.k in ("arr", "vec") else t.fields[i]) + "," for i in range(n)) + ")"
        if c[0] == "s": return "(" + "".join("%d," % b for b in c[1]) + ")"
        return "(" + "".join(s.aggconst(e, t.e if t.k in ("arr", "vec") else t.fields[i]) + "," for i, e in enumerate(c[1])) + ")"
    def opnd(s, v, t, loc):
        if v[0] == "r": return "v%d" % v[1] if v[1] in loc else "r[%d]" % v[1]
        if t.k not in ("i", "ptr"): return s.aggconst(v, t)
        if v[0] == "u": return "0"
        return str(s.cval(v))
    def phi_src(s, f, pred, tgt, loc):
        lhs = []; rhs = []
        for ins in s.mod.instrs(f, tgt):
            if ins[0] != "phi": break
            _, d, t, inc = ins
            if pred not in inc: raise Inconclusive("phi in %s: %s" % (f.name, pred))
            lhs.append("r[%d]" % d); rhs.append(s.opnd(inc[pred], t, loc))
        if not lhs: return []
        return [", ".join(lhs) + " = " + ", ".join(rhs)]
    def seg(s, f, b, start):
        k = (b, start); g = f.code.get(k)
        if g is None: g = f.code[k] = s.compile(f, b, start)
        return g
    def segno(s, f, b, start):
        """index of a lazily compiled segment in f.segs"""
        if not hasattr(f, "segs"): f.segs = []; f.segidx = {}
        k = (b, start); i = f.segidx.get(k)
        if i is None:
            i = f.segidx[k] = len(f.segs)
            f.segs.append(Lazy(s, f, b, start, i))
        return i
    def compile(s, f, b, start):
        ins = s.mod.instrs(f, b); src = []; loc = set(); O = lambda v, t: s.opnd(v, t, loc)
        cnt = [0]
        ns = dict(s.ns())
        s.segno(f, b, start)
        def two(a, t, b2):
            """make operands simple names"""
            out = []
            for v in (a, b2):
                e = O(v, t)
                if e[0] == "r":
                    cnt[0] += 1; nm = "t%d" % cnt[0]; src.append("%s = %s" % (nm, e)); e = nm
                out.append(e)
            return out
        def setd(d, e):
            src.append("v%d = r[%d] = %s" % (d, d, e)); loc.add(d)
        par = lambda q: "(%s)" % q if q.lstrip("-").isdigit() else q
        isint = lambda x, y: " and ".join("%s.__class__ is int" % q for q in (x, y) if not q.lstrip("-").isdigit()) or "True"
        i = start
        while ins[i][0] == "phi": i += 1
        term = False
        while i < len(ins):
            x = ins[i]; op = x[0]
            if op == "bin":
                _, d, o, t, a, c, fl = x
                if t.k == "vec":
                    ea, ec = O(a, t), O(c, t); nm = {"and": "and_", "or": "or_"}.get(o, o)
                    if o in ("shl", "lshr", "ashr"): setd(d, "tuple(T_vshift('%s', p, q, %d) for p, q in zip(%s, %s))" % (o, t.e.n, ea, ec))
                    else: setd(d, "tuple(T_%s(p, q, %d) for p, q in zip(%s, %s))" % (nm, t.e.n, ea, ec))
                else:
                    p, q = two(a, t, c); w = t.n; M = (1 << w) - 1; g = isint(p, q)
                    if o in ("add", "sub", "mul"):
                        sy = {"add": "+", "sub": "-", "mul": "*"}[o]
                        setd(d, "(%s %s %s) & %d if %s else T_%s(%s, %s, %d)" % (p, sy, q, M, g, o, p, q, w))
                    elif o in ("and", "or", "xor"):
                        sy = {"and": "&", "or": "|", "xor": "^"}[o]; nm = {"and": "and_", "or": "or_", "xor": "xor"}[o]
                        setd(d, "%s %s %s if %s else T_%s(%s, %s, %d)" % (p, sy, q, g, nm, p, q, w))
                    elif o in ("shl", "lshr", "ashr"): setd(d, "T_vshift('%s', %s, %s, %d)" % (o, p, q, w))
                    else:
                        src.append("st.pc = %d" % i)
                        src.append("if %s.__class__ is int and %s == 0: raise Violation('division by zero')" % (q, q) if not q.isdigit() else "pass")
                        setd(d, "T_%s(%s, %s, %d)" % (o, p, q, w))
            elif op == "icmp":
                _, d, pr, t, a, c = x
                if t.k == "vec": setd(d, "tuple(T_icmp('%s', p, q, %d) for p, q in zip(%s, %s))" % (pr, t.e.n, O(a, t), O(c, t)))
                else:
                    p, q = two(a, t, c); w = t.n; g = isint(p, q)
                    sy = {"eq": "==", "ne": "!=", "ult": "<", "ugt": ">", "ule": "<=", "uge": ">="}.get(pr)
                    if sy: setd(d, "(1 if %s %s %s else 0) if %s else T_icmp('%s', %s, %s, %d)" % (p, sy, q, g, pr, p, q, w))
                    else: setd(d, "T_icmp('%s', %s, %s, %d)" % (pr, p, q, w))
            elif op == "cast":
                _, d, o, t, a, t2 = x
                e = O(a, t)
                if t.k == "vec" or t2.k == "vec":
                    if o in ("zext", "sext", "trunc"): setd(d, "tuple(T_%s(p, %d, %d) for p in %s)" % (o, t.e.n, t2.e.n, e))
                    elif t.k == "vec" and t2.k == "vec": setd(d, "E.revec(%s, %d, %d, %d, %d)" % (e, t.n, t.e.n, t2.n, t2.e.n))
                    elif t.k == "vec": setd(d, "T_concat([(p, %d) for p in %s])" % (t.e.n, e))
                    else: setd(d, "E.tovec(%s, %d, %d)" % (e, t2.n, t2.e.n))
                elif o in ("zext", "sext", "trunc") and t.n != t2.n:
                    if e[0] == "r": src.append("t0 = " + e); e = "t0"
                    if o == "zext": setd(d, "%s if %s.__class__ is int else T_zext(%s, %d, %d)" % (e, par(e), e, t.n, t2.n))
                    elif o == "trunc": setd(d, "%s & %d if %s.__class__ is int else T_trunc(%s, %d, %d)" % (e, (1 << t2.n) - 1, par(e), e, t.n, t2.n))
                    else: setd(d, "T_sext(%s, %d, %d)" % (e, t.n, t2.n))
                elif t.k in ("i", "ptr") and t2.k in ("i", "ptr") and t.n != t2.n: setd(d, ("T_trunc(%s, %d, %d)" if t.n > t2.n else "T_zext(%s, %d, %d)") % (e, t.n, t2.n))
                else: setd(d, e)
            elif op == "load":
                _, d, t, p = x
                src.append("st.pc = %d" % i)
                if t.k in ("i", "ptr"): setd(d, "ld(st, %s, %d, %d)" % (O(p, ir.PTR), (t.n + 7) // 8, t.n))
                else:
                    ns["Y%d" % i] = t; setd(d, "ldx(st, %s, Y%d)" % (O(p, ir.PTR), i))
            elif op == "store":
                _, t, v, p = x
                src.append("st.pc = %d" % i)
                if t.k in ("i", "ptr"): src.append("stv(st, %s, %d, %s)" % (O(p, ir.PTR), (t.n + 7) // 8, O(v, t)))
                else:
                    ns["Y%d" % i] = t; src.append("stx(st, %s, Y%d, %s)" % (O(p, ir.PTR), i, O(v, t)))
            elif op == "alloca":
                _, d, t, n = x
                src.append("st.pc = %d" % i)
                setd(d, "alloca(st, %d, %s, %r)" % (t.size, O(n[1], n[0]) if n else "1", f.name + ".local"))
            elif op == "gep":
                _, d, bt, base, idx = x
                const = 0; terms = []; cur = bt
                for k, (it, iv) in enumerate(idx):
                    if k == 0: sz = bt.size
                    elif cur.k == "struct":
                        fi = s.cval(iv); const += cur.offs[fi]; cur = cur.fields[fi]; continue
                    else: sz = cur.e.size; cur = cur.e
                    if iv[0] == "r": terms.append((O(iv, it), it.n, sz))
                    else: const += sgn(s.cval(iv), it.n) * sz
                e = O(base, ir.PTR)
                if not terms and e.isdigit(): setd(d, str((int(e) + const) & MASK64))
                else:
                    if e[0] != "v": src.append("t0 = " + e); e = "t0"
                    cur_e = e
                    if const: 
                        c = const & MASK64
                        src.append("t1 = (%s + %d) & MASK64 if %s.__class__ is int else T_add(%s, %d, 64)" % (cur_e, c, par(cur_e), cur_e, c)); cur_e = "t1"
                    for q, (te, w, sz) in enumerate(terms):
                        src.append("t2 = %s" % te)
                        if w < 64: src.append("t2 = T_sext(t2, %d, 64)" % w)
                        src.append("t1 = (%s + t2 * %d) & MASK64 if t2.__class__ is int and %s.__class__ is int else T_add(%s, T_mul(t2, %d, 64), 64)" % (cur_e, sz, par(cur_e), cur_e, sz))
                        cur_e = "t1"
                    setd(d, cur_e)
            elif op == "select":
                _, d, t, c, a, b2 = x
                if t.k in ("i", "ptr"):
                    src.append("t0 = " + O(c, ir.I(1)))
                    src.append("t1 = %s; t2 = %s" % (O(a, t), O(b2, t)))
                    setd(d, "(t1 if t0 & 1 else t2) if t0.__class__ is int else T_ite(t0, t1, t2, %d)" % t.n)
                else: raise Inconclusive("select on " + t.k)
            elif op == "exval":
                _, d, t, a, idx = x
                setd(d, O(a, t) + "".join("[%d]" % q for q in idx))
            elif op == "insval":
                _, d, t, a, t2, v, idx = x
                setd(d, "E.insval(%s, %r, %s)" % (O(a, t), tuple(idx), O(v, t2)))
            elif op == "exel": setd(x[1], "%s[%s]" % (O(x[3], x[2]), O(x[4], ir.I(64))))
            elif op == "insel": setd(x[1], "E.insval(%s, (%s,), %s)" % (O(x[3], x[2]), O(x[5], ir.I(64)), O(x[4], x[2].e)))
            elif op == "shuf":
                _, d, t, a, b2, m, mt = x
                mask = eval(s.aggconst(m, mt))
                setd(d, "E.shuf(%s, %s, %r)" % (O(a, t), O(b2, t), mask))
            elif op == "asm":
                _, d, t, txt, cons, args = x
                ns["Y%d" % i] = t
                src.append("st.pc = %d" % i)
                e = "asmx(st, %r, %r, Y%d, [%s])" % (txt, cons, i, ", ".join(O(v, tt) for tt, v in args))
                if d is None: src.append(e)
                else: setd(d, e)
            elif op == "call":
                _, d, t, cv, args = x
                if args is None: i += 1; continue
                al = [O(v, tt) for tt, v in args]
                if cv[0] == "g" and cv[1] not in s.mod.funcs:
                    nm = cv[1]
                    h = s.handlers.get(nm) or s.llvm_handler(nm)
                    if h is None:
                        src.append("E.unmodelled(%r)" % nm)
                        if d is not None: setd(d, "0")
                    elif h != "skip":
                        ns["h%d" % i] = h
                        src.append("st.pc = %d" % i)
                        e = "h%d(%s)" % (i, ", ".join(["st"] + al))
                        if d is None: src.append(e)
                        else: setd(d, e)
                else:
                    if cv[0] == "g" and cv[1] in s.handlers and cv[1] in s.override:
                        ns["h%d" % i] = s.handlers[cv[1]]
                        src.append("st.pc = %d" % i); e = "h%d(%s)" % (i, ", ".join(["st"] + al))
                        if d is None: src.append(e)
                        else: setd(d, e)
                        i += 1; continue
                    if cv[0] == "g": ns["C%d" % i] = s.mod.funcs[cv[1]]; ce = "C%d" % i
                    else: ce = O(cv, ir.PTR)
                    src.append("st.pc = %d" % i)
                    src.append("return (0, %s, [%s], %s, %d, %d)" % (ce, ", ".join(al), d, s.segno(f, b, i + 1), i))
                    term = True; break
            elif op == "br":
                src += s.phi_src(f, b, x[1], loc); src.append("return %d" % s.segno(f, x[1], 0)); term = True
            elif op == "cbr":
                src.append("t0 = " + O(x[1], ir.I(1)))
                src.append("if t0.__class__ is int:")
                src.append("  if t0 & 1:")
                src += ["    " + q for q in s.phi_src(f, b, x[2], loc)] + ["    return %d" % s.segno(f, x[2], 0)]
                src.append("  else:")
                src += ["    " + q for q in s.phi_src(f, b, x[3], loc)] + ["    return %d" % s.segno(f, x[3], 0)]
                src.append("return (2, t0, %r, %r, %r)" % (b, x[2], x[3])); term = True
            elif op == "switch":
                _, t, v, df, cs = x
                src.append("t0 = " + O(v, t))
                src.append("if t0.__class__ is int:")
                for cv, tg in cs:
                    src.append("  if t0 == %d:" % cv)
                    src += ["    " + q for q in s.phi_src(f, b, tg, loc)] + ["    return %d" % s.segno(f, tg, 0)]
                src += ["  " + q for q in s.phi_src(f, b, df, loc)] + ["  return %d" % s.segno(f, df, 0)]
                src.append("return (3, t0, %d, %r, %r, %r)" % (t.n, b, df, cs)); term = True
            elif op == "ret":
                src.append("return (1, %s)" % (O(x[1], x[2]) if x[1] is not None else "None")); term = True
            elif op == "unreachable": src.append("unreach()"); src.append("return None"); term = True
            elif op == "phi": raise Inconclusive("phi order")
            else: raise Inconclusive("op " + op)
            i += 1
        code = "def F(st, r):\n" + "\n".join("  " + q for q in src)
        try: exec(compile_cached(code), ns)
        except SyntaxError: raise RuntimeError("codegen failed:\n" + code[:1500])
        g = Seg(); g.f = ns["F"]; g.block = b; g.fn = f
        j = f.segidx.get((b, start))
        f.segs[j] = g
        return g
    override = set()
    def unmodelled(s, nm): raise Inconclusive("call to unmodelled function " + nm)
    def insval(s, a, idx, v):
        l = list(a)
        if len(idx) == 1: l[idx[0]] = v
        else: l[idx[0]] = s.insval(l[idx[0]], idx[1:], v)
        return tuple(l)
    def shuf(s, a, b, m):
        c = tuple(a) + tuple(b)
        return tuple(c[k] for k in m)
    def tovec(s, v, n, w): return tuple(T.extract(v, i * w, w) for i in range(n))
    def revec(s, v, n, w, n2, w2):
        return s.tovec(T.concat([(p, w) for p in v]), n2, w2)
    def llvm_handler(s, nm):
        from . import libc
        return libc.llvm(s, nm)
_cc = {}
def compile_cached(code):
    c = _cc.get(code)
    if c is None: c = _cc[code] = compile(code, "<seg>", "exec")
    return c
class Seg: __slots__ = ("f", "block", "fn")
class Lazy:
    def __init__(s, e, f, b, st, i): s.a = (e, f, b, st, i); s.block = b; s.fn = f
    def f(s, st, r):
        e, f, b, start, i = s.a
        g = e.seg(f, b, start); f.segs[i] = g
        st.frames[-1].seg = g
        return g.f(st, r)

def _check_eq(s, st, a, b, w, what):
    """equality of two wide values: canonical form first, then byte-wise evaluation, then the solver"""
    s.stats["asserts"] += 1
    d = T.xor(a, b, w)
    if isinstance(d, int):
        if d == 0: s.stats["assert_syntactic"] += 1; return
        raise Violation(what)
    n = T.not_(T.eq0(d), 1)
    env = s.find_env(st, n)
    if env is not None: raise Violation(what, ("env", env))
    if len(st.pcs) == 0 or w > 64:
        from . import sweep
        A = a if isinstance(a, Term) else None; B = b if isinstance(b, Term) else None
        if A is not None and B is not None:
            r = sweep.equal(A, B, s.ufeval, s.stats, s.rng, min(s.deadline or 1e18, time.time() + 300))
            if r: s.stats["assert_sweep"] = s.stats.get("assert_sweep", 0) + 1; s.stats["assert_solver"] += 1; return
    # wide equalities are decided in 64-bit pieces
    for k in range(0, w, 64):
        m = min(64, w - k)
        p = T.xor(T.extract(a, k, m), T.extract(b, k, m), m)
        if isinstance(p, int):
            if p: raise Violation(what)
            continue
        c = T.not_(T.eq0(p), 1)
        r = s.sat(st, c); s.stats["assert_solver"] += 1
        if r is True: raise Violation(what, c)
        if r is None: s.inconcl.append("solver gave up on equality: " + what)
Engine.check_eq = _check_eq
