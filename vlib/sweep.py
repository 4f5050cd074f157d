"""Equality of two large terms by internal equivalences: nodes that agree on random inputs are proved equal bottom-up
with small solver queries (cutting at nodes already shared) and merged, until the two terms coincide."""
import time, random, z3
from . import term as T
from .term import Term

def rebuild(x, m):
    """x with its children replaced according to m: id -> value"""
    g = lambda v: v if isinstance(v, int) else m.get(v.id, v)
    op, w = x.op, x.w
    if op == "var": return x
    if op == "B":
        if not any(i in m for f, mm in x.args for i, s in f): return x
        r = 0
        for f, mask in x.args:
            v = mask
            for i, s in f:
                a = T.BYID[i]; b = m.get(i, a)
                W = max(w, a.w)
                b = T.shl(b, s, W) if s >= 0 else T.lshr(b, -s, W) if not isinstance(b, int) else b >> -s
                if isinstance(b, int): b &= T.full(w)
                elif b.w != w: b = T.trunc(b, b.w, w) if b.w > w else T.zext(b, b.w, w)
                v = T.and_(v, b, w)
            r = T.xor(r, v, w)
        return r
    if op == "add":
        r = x.args[0]
        for t, k in x.args[1]: r = T.add(r, T.mulc(g(t), k, w), w)
        return r
    if op == "name":
        y = g(x.args[0]); return y if isinstance(y, int) else T.atomise(y) if y is not x.args[0] else x
    if op == "rep":
        y = g(x.args[0]); return T.rep(y, w) if not isinstance(y, int) else (T.full(w) if y & 1 else 0)
    if op == "mul": return T.mul(g(x.args[0]), g(x.args[1]), w)
    if op == "eq0": return T.eq0(g(x.args[0]))
    if op == "ult":
        a, b = x.args; ww = a.w if isinstance(a, Term) else b.w
        return T.ult(g(a), g(b), ww)
    if op == "lut": return T.lut(T.LUTL[x.args[0]], g(x.args[1]), x.args[2])
    if op == "uf": return T.uf(x.args[0], tuple((g(v), wd) for v, wd in x.args[1]), w)
    if op in ("vshl", "vlshr", "vashr"): return T.vshift(op[1:], g(x.args[0]), g(x.args[1]), w)
    if op in ("udiv", "urem", "sdiv", "srem"): return getattr(T, op)(g(x.args[0]), g(x.args[1]), w)
    return x
def cone(t):
    seen = {}; st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen[x.id] = x; st.extend(T.children(x))
    return seen
def z3cut(t, depth, cutset, cache):
    """z3 expression of t; nodes at depth 0 below, or in cutset, become variables"""
    k = (t.id, depth)
    if k in cache: return cache[k]
    if t.op == "var": r = z3.BitVec(t.args[0], t.w)
    elif depth <= 0 or t.id in cutset: r = z3.BitVec("cut!%d" % t.id, t.w)
    else:
        ch = T.children(t)
        save = {c.id: T._z3cache.get(c.id) for c in ch}
        for c in ch: T._z3cache[c.id] = z3cut(c, depth - 1, cutset, cache)
        try: r = T._z1(t)
        finally:
            for i, v in save.items():
                if v is None: T._z3cache.pop(i, None)
                else: T._z3cache[i] = v
    cache[k] = r
    return r
def prove(x, y, shared, timeout, stats):
    for depth in (2, 4, 8):
        cut = {i for i in shared if i != x.id and i != y.id}
        s = z3.Solver(); s.set("timeout", timeout)
        c = {}
        s.add(z3cut(x, depth, cut if depth < 8 else (), c) != z3cut(y, depth, cut if depth < 8 else (), c))
        stats["queries"] += 1; t0 = time.time()
        r = s.check(); stats["solver_s"] += time.time() - t0
        if r == z3.unsat: return True
        if r == z3.unknown: return False
    return False
def equal(a, b, ufeval, stats, rng, deadline):
    """True if proved equal (under no assumptions), None otherwise"""
    ca, cb = cone(a), cone(b)
    vs = T.vars_of([a, b])
    sig = {}
    nodes = dict(ca); nodes.update(cb)
    sigs = {i: [] for i in nodes}
    for k in range(4):
        env = {n: rng.getrandbits(v.w) for n, v in vs.items()}; cache = {}
        T.evaluate(a, env, ufeval, cache); T.evaluate(b, env, ufeval, cache)
        for i in nodes: sigs[i].append(cache[i])
    if sigs[a.id] != sigs[b.id]: return None
    known = {}                      # (w, sig) -> representative
    m = {}
    shared = set()
    for i in sorted(nodes):
        x = nodes[i]
        if time.time() > deadline: return None
        y = rebuild(x, m) if x.op != "var" else x
        if y is not x: m[i] = y
        if isinstance(y, int): continue
        key = (x.w, tuple(sigs[i]))
        r = known.get(key)
        if r is None: known[key] = y; shared.add(y.id); continue
        if r is y: continue
        if i in ca and i in cb: continue
        if prove(r, y, shared, 20000, stats): m[i] = r
    fa, fb = m.get(a.id, a), m.get(b.id, b)
    return True if fa is fb else None
