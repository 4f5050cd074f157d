"""Machine arithmetic as exact integer polynomials.

A raw term (additions and multiplications kept as written) is read as an integer polynomial over atoms: inputs, and floors
floor(x / 2^k) of polynomials, which stand for carries and shifted-out parts.  Every operation is exact: a machine sum is
its integer sum minus 2^w times a floor, which vanishes when interval arithmetic shows that it cannot wrap.  A congruence
between two such polynomials modulo p holds for all inputs when the difference, with the monomials taken as arbitrary
integers, is a multiple of p; z3 decides that."""
import z3, random
from . import term as T
MODS = {1: (1 << 130) - 5, 2: (1 << 255) - 19}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r
def mmul(m, n):
    """monomials are sorted tuples of (atom, exponent)"""
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
class Arith:
    def __init__(s): s.atoms = {}; s.bounds = []; s.memo = {}; s.fl = []; s.limits = {}
    def atom(s, key, lo, hi, fl=None):
        i = s.atoms.get(key)
        if i is None: i = s.atoms[key] = len(s.bounds); s.bounds.append((lo, hi)); s.fl.append(fl)
        else:
            l, h = s.bounds[i]; s.bounds[i] = (max(l, lo), min(h, hi))
        return i
    def prange(s, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for a, e in m:
                x, y = s.bounds[a]
                if e > 1: x, y = (x ** e, y ** e) if x >= 0 else (-max(-x, y) ** e, max(-x, y) ** e)
                q = (l * x, l * y, h * x, h * y); l, h = min(q), max(q)
            if c >= 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        return lo, hi
    def floor(s, p, k, rng=None):
        """(polynomial, range) of floor(p / 2^k)"""
        if k == 0: return p, rng or s.prange(p)
        if rng and rng[0] >> k == rng[1] >> k:
            c = rng[0] >> k; return ({(): c} if c else {}), (c, c)
        q = {m: c >> k for m, c in p.items() if c & ((1 << k) - 1) == 0}
        r = {m: c for m, c in p.items() if c & ((1 << k) - 1)}
        out = q; lo, hi = (rng[0] >> k, rng[1] >> k) if rng else (None, None)
        if r:
            g = min((c & -c).bit_length() - 1 for c in r.values())
            kk = k - g; r = {m: c >> g for m, c in r.items()}
            a, b = s.prange(r)
            if not q and rng: a, b = max(a, -(-rng[0] >> g)), min(b, rng[1] >> g)
            if a >> kk == b >> kk: out = padd(q, {(): a >> kk} if a >> kk else {})
            else:
                base = tuple(sorted(r.items())); ka = kk
                if len(r) == 1:
                    (m, c), = r.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and s.fl[m[0][0]]: base, k0 = s.fl[m[0][0]]; ka = kk + k0
                i = s.atom(("F", base, ka), a >> kk, b >> kk, (base, ka))
                out = padd(q, {((i, 1),): 1})
        l2, h2 = s.prange(out)
        if lo is None: lo, hi = l2, h2
        return out, (max(lo, l2), min(hi, h2))
    def val(s, t, w=None):
        """(polynomial, (lo, hi)) of a value"""
        if isinstance(t, int): return ({(): t} if t else {}), (t, t)
        r = s.memo.get(t.id)
        if r is None:
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in s.memo: stack.pop(); continue
                todo = [c for c in T.children(x) if c.id not in s.memo]
                if todo: stack += todo; continue
                stack.pop(); s.memo[x.id] = s.val1(x)
            r = s.memo[t.id]
        return r
    def val1(s, x):
        op = x.op; w = x.w; F = T.full(w)
        if op in ("radd", "rsub", "rmul"):
            (p, a), (q, b) = s.val(x.args[0]), s.val(x.args[1])
            if op == "radd": r = padd(p, q); rng = (a[0] + b[0], a[1] + b[1])
            elif op == "rsub":
                r = padd(p, q, -1); rng = (a[0] - b[1], a[1] - b[0])
            else: r = pmul(p, q); rng = (a[0] * b[0], a[1] * b[1])
            l, h = s.prange(r); rng = (max(rng[0], l), min(rng[1], h))
            if rng[0] < 0 or rng[1] > F:
                c, cr = s.floor(r, w, rng)
                r = padd(r, c, -(1 << w)); rng = (0, F)
            return r, rng
        if op == "B":
            used = 0; p = {}; lo = hi = 0
            for f, m in x.args:
                if used & m: return s.opaque(x)
                used |= m
            for f, m in x.args:
                if not f: p = padd(p, {(): m}); lo += m; hi += m; continue
                if len(f) != 1: return s.opaque(x)
                i, sh = f[0]; a = T.BYID[i]; k = 0
                while m >> k:
                    while not (m >> k) & 1: k += 1
                    e = k
                    while (m >> e) & 1: e += 1
                    q, rg = s.slice(a, k - sh, e - sh)
                    p = padd(p, q, 1 << k); lo += rg[0] << k; hi += rg[1] << k
                    k = e
            l, h = s.prange(p)
            return p, (max(lo, l), min(hi, h))
        if op == "or":
            used = 0
            for t in x.args:
                if used & t.sup: return s.opaque(x)
                used |= t.sup
            p = {}; lo = hi = 0
            for t in x.args: q, r = s.val(t); p = padd(p, q); lo += r[0]; hi += r[1]
            return p, (lo, hi)
        if op == "name": return s.val(x.args[0])
        return s.opaque(x)
    def opaque(s, x):
        hi = min(x.sup, s.limits.get(x.args[0], x.sup)) if x.op == "var" else x.sup
        i = s.atom(("t", x.id), 0, hi); return {((i, 1),): 1}, (0, hi)
    def slice(s, a, i, j):
        p, r = s.val(a)
        if r[1] >> i == 0: return {}, (0, 0)
        x, rx = s.floor(p, i, r)
        if r[1] >> j == 0: return x, rx
        y, ry = s.floor(p, j, r)
        return padd(x, y, -(1 << (j - i))), (0, min((1 << (j - i)) - 1, rx[1]))
class Fields:
    """the expressions a harness builds: handles into a list"""
    def __init__(s): s.A = Arith(); s.e = [None]; s.p = 0; s.poly = {}; s.subst = {}
    def mod(s, r): return {m: c % s.p for m, c in r.items() if c % s.p}
    def define(s, limbs, shifts, h):
        """the limbs are those of the element h (0: a new one): the lowest limb is what the others leave of it"""
        E = s.poly_of(h) if h else {((s.A.atom(("el", len(s.subst)), 0, s.p - 1), 1),): 1}
        (m, c), = s.A.val(limbs[0])[0].items(); (a, e), = m
        assert c == 1 and e == 1 and a not in s.subst
        for t, k in zip(limbs[1:], shifts[1:]): E = padd(E, s.A.val(t)[0], -(1 << (k - shifts[0])))
        s.subst[a] = s.mod(E)
    def apply(s, p):
        if not s.subst: return p
        r = {}
        for m, c in p.items():
            t = {tuple(x for x in m if x[0] not in s.subst): c}
            for a, e in m:
                if a in s.subst:
                    for _ in range(e): t = pmul(t, s.subst[a])
            r = padd(r, t)
        return r
    def new(s, *e): s.e.append(e); return len(s.e) - 1
    def poly_of(s, h):
        if h in s.poly: return s.poly[h]
        e = s.e[h]
        if e[0] == "limbs":
            r = {}
            for t, k in zip(e[1], e[2]): r = padd(r, s.A.val(t)[0], 1 << k)
            r = s.apply(s.mod(r))
        elif e[0] == "const": r = {(): e[1]} if e[1] else {}
        elif e[0] == "add": r = padd(s.poly_of(e[1]), s.poly_of(e[2]), e[3])
        else: r = pmul(s.poly_of(e[1]), s.poly_of(e[2]))
        r = {m: c % s.p for m, c in r.items() if c % s.p}
        s.poly[h] = r; return r
    def eval(s, h, ev):
        e = s.e[h]
        if e[0] == "limbs": return sum(ev(t) << k for t, k in zip(e[1], e[2])) % s.p
        if e[0] == "const": return e[1] % s.p
        if e[0] == "add": return (s.eval(e[1], ev) + e[3] * s.eval(e[2], ev)) % s.p
        return s.eval(e[1], ev) * s.eval(e[2], ev) % s.p
    def residual(s, a, b): 
        d = padd(s.poly_of(a), s.poly_of(b), -1)
        return {m: c % s.p for m, c in d.items() if c % s.p}
    def decide(s, a, b):
        """z3: is there a value of the monomials for which the two sides differ modulo p?"""
        x, y = s.poly_of(a), s.poly_of(b)
        ms = sorted(set(x) | set(y)); v = {m: z3.Int("m%d" % i) for i, m in enumerate(ms)}
        k = z3.Int("k")
        S = z3.Solver(); S.set("timeout", 60000)
        d = {m: x.get(m, 0) - y.get(m, 0) for m in ms}
        lhs = z3.Sum([z3.IntVal(c) * v[m] for m, c in d.items()] + [z3.IntVal(0)])
        q = z3.Sum([z3.IntVal(c // s.p) * v[m] for m, c in d.items()] + [z3.IntVal(0)])
        S.add(lhs != z3.IntVal(s.p) * q)
        return S.check()
def samples(inputs, rng, limits, n=120):
    """assignments worth trying when an identity does not go through: extremes, then mixtures"""
    for k in range(n):
        env = {}
        for w, t in inputs:
            if t.op != "var": continue
            F = (1 << w) - 1
            env[t.args[0]] = F if k == 0 else 0 if k == 1 else (rng.choice([0, 1, F, F - 1, F >> 1, rng.getrandbits(w), F - rng.getrandbits(min(w, 3))]) if k & 1 else rng.getrandbits(w))
        for v, hi in limits.items():
            if env.get(v, 0) > hi: env[v] = hi
        yield env
