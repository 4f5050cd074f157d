"""Hash-consed bit-vector terms with a canonical form.

A value of width w is a Python int (concrete) or a Term.  Bitwise structure is kept as a polynomial over
GF(2) whose monomials are conjunctions of shifted atoms under a constant mask, so that any composition of
and/or/xor/not/shift/rotate/extract/concatenate/byte-swap/select has one representation; sums are kept as
linear forms modulo 2^w.  Whatever is not canonicalised away becomes an atom and is decided by z3."""
import z3
from functools import lru_cache

class Term:
    __slots__ = ("op", "args", "w", "id", "poly", "sup", "z")
    def __repr__(self): return show(self, 3)
    # identity comparison and hashing: terms are hash-consed
_table = {}
BYID = []
MAXPROD = 64          # largest number of monomials a product may have before its factors are named
MAXPOLY = 400
FIT = False           # a byte of a sum stays a byte of that sum
ANF = False           # expand replicated bits, so that GF(2) polynomials have one form
RAW = False           # raw mode: keep arithmetic as written (used for field-arithmetic extraction)

def reset():
    _table.clear(); BYID.clear(); _fresh.clear(); LUTS.clear(); LUTL.clear(); _z3cache.clear()

def mk(op, args, w):
    k = (op, args, w)
    t = _table.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.w = w; t.id = len(BYID); t.poly = None; t.z = None
        t.sup = (1 << w) - 1
        BYID.append(t); _table[k] = t
    return t
_fresh = {}
def fresh(name, w):
    n = _fresh.get(name, 0); _fresh[name] = n + 1
    return mk("var", (name if n == 0 else "%s#%d" % (name, n),), w)
def var(name, w): return mk("var", (name,), w)

def poly_of(t):
    """canonical polynomial of a Term: dict {((atomid,shift),...): mask}"""
    if t.op == "B": return t.poly
    if t.poly is None: t.poly = {((t.id, 0),): t.sup}
    return t.poly

def from_poly(p, w):
    """dict -> int or Term.  p must already be reduced to width w."""
    if not p: return 0
    if len(p) == 1:
        (f, m), = p.items()
        if not f: return m
        if len(f) == 1 and f[0][1] == 0:
            a = BYID[f[0][0]]
            if a.w == w and m == a.sup: return a
    key = tuple(sorted(p.items()))
    k = ("B", key, w)
    t = _table.get(k)
    if t is None:
        t = Term(); t.op = "B"; t.args = key; t.w = w; t.id = len(BYID); t.poly = p; t.z = None
        s = 0
        for m in p.values(): s |= m
        t.sup = s
        BYID.append(t); _table[k] = t
    return t

def P(a, w):
    if isinstance(a, int): return {(): a} if a else {}
    return poly_of(a)

def full(w): return (1 << w) - 1

def xor(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int): return a ^ b
        if a == 0: return b
    elif isinstance(b, int) and b == 0: return a
    if a is b: return 0
    pa, pb = P(a, w), P(b, w)
    if len(pa) < len(pb): pa, pb = pb, pa
    p = dict(pa)
    for f, m in pb.items():
        n = p.get(f, 0) ^ m
        if n: p[f] = n
        else: p.pop(f, None)
    return name_if_big(from_poly(p, w))

def name_if_big(t):
    return t

def atomise(t):
    """view a Term as one opaque atom"""
    if t.op == "B":
        a = mk("name", (t,), t.w); a.sup = t.sup
        return a
    return t

def and_(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int): return a & b
        a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b & a.sup == a.sup: return a
        p = {}
        for f, m in poly_of(a).items():
            n = m & b
            if n: p[f] = n
        return from_poly(p, w)
    if a is b: return a
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > MAXPROD and not ANF:
        if len(pa) >= len(pb): pa = poly_of(atomise(a))
        else: pb = poly_of(atomise(b))
        if len(pa) * len(pb) > MAXPROD:
            pa, pb = poly_of(atomise(a)), poly_of(atomise(b))
    p = {}
    for f1, m1 in pa.items():
        for f2, m2 in pb.items():
            m = m1 & m2
            if not m: continue
            if f1 == f2 or not f2: f = f1
            elif not f1: f = f2
            else: f = tuple(sorted(set(f1) | set(f2)))
            n = p.get(f, 0) ^ m
            if n: p[f] = n
            else: p.pop(f, None)
    return from_poly(p, w)

def not_(a, w): return xor(a, full(w), w)
def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return a | b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
        # a | c  = (a & ~c) ^ c
        return xor(and_(a, full(w) & ~b, w), b, w)
    if a is b: return a
    if a.sup & b.sup == 0: return xor(a, b, w)
    if ANF and len(poly_of(a)) * len(poly_of(b)) <= MAXPROD: return xor(xor(a, b, w), and_(a, b, w), w)
    c = low(a) | low(b)
    if c: return xor(or_(and_(a, full(w) & ~c, w), and_(b, full(w) & ~c, w), w), c, w)
    if a.op == "or" or b.op == "or" or len(poly_of(a)) * len(poly_of(b)) > 12: return mk_or((a, b), w)
    return xor(xor(a, b, w), and_(a, b, w), w)
def mk_or(ts, w):
    l = {}
    for t in ts:
        if t.op == "or": l.update((x.id, x) for x in t.args)
        else: l[t.id] = t
    r = mk("or", tuple(l[k] for k in sorted(l)), w)
    s = 0
    for t in r.args: s |= t.sup
    r.sup = s
    return r

def low(a):
    """a lower bound: constant bits no other monomial can touch"""
    if isinstance(a, int): return a
    if a.op == "B":
        c = a.poly.get(())
        if c:
            o = 0
            for f, m in a.poly.items():
                if f: o |= m
            return c & ~o
    return 0
def add_range(a):
    """contiguous range of a linear form, or None if it may wrap"""
    w = a.w; h = 1 << (w - 1); c, ts = a.args; lo = hi = c
    for t, k in ts:
        if k >= h: k -= 1 << w
        x, y = low(t), t.sup
        if k >= 0: lo += k * x; hi += k * y
        else: lo += k * y; hi += k * x
    if lo >> w != hi >> w: return None
    return lo & full(w), hi & full(w)
def shl(a, k, w):
    if k >= w: return 0
    if isinstance(a, int): return (a << k) & full(w)
    if k == 0: return a
    F = full(w); p = {}
    for f, m in poly_of(a).items():
        m = (m << k) & F
        if m: p[tuple((i, s + k) for i, s in f)] = m
    return from_poly(p, w)
def lshr(a, k, w):
    if k >= w: return 0
    if isinstance(a, int): return a >> k
    if k == 0: return a
    if a.op == "add":
        r = add_range(a)
        if r and r[0] >> k == r[1] >> k: return r[0] >> k
        c, ts = a.args      # (2^k - t) >> k  is  t == 0
        if c == 1 << k and len(ts) == 1 and ts[0][1] == full(w) and ts[0][0].sup <= c: return zext(eq0(ts[0][0]), 1, w)
    p = {}
    for f, m in poly_of(a).items():
        m >>= k
        if m: p[tuple((i, s - k) for i, s in f)] = m
    return from_poly(p, w)
def zext(a, w0, w):
    if isinstance(a, int): return a
    if w == w0: return a
    return from_poly(poly_of(a), w)
def trunc(a, w0, w):
    if isinstance(a, int): return a & full(w)
    if w == w0: return a
    # a truncation is pushed into a sum, but a byte taken out of a word (its terms do not fit) stays a byte of that word
    if a.op == "add" and (not FIT or w >= 32 or a.args[0] <= full(w) and all(t.sup <= full(w) for t, k in a.args[1])):
        c, ts = a.args
        r = c & full(w)
        for t, k in ts: r = add(r, mulc(trunc(t, w0, w), k, w), w)
        return r
    if a.op == "mul":
        return mul(trunc(a.args[0], w0, w), trunc(a.args[1], w0, w), w)
    F = full(w); p = {}
    for f, m in poly_of(a).items():
        m &= F
        if m: p[f] = m
    return from_poly(p, w)
def rep(b, w):
    """1-bit value replicated to width w"""
    if isinstance(b, int): return full(w) if b & 1 else 0
    if w == 1: return b
    pb = poly_of(b)
    if ANF:
        q = {}
        for f, m in pb.items():
            for j in range(w):
                k = tuple((i, s + j) for i, s in f); q[k] = q.get(k, 0) ^ (1 << j)
        return from_poly(q, w)
    if len(pb) > 8: pb = poly_of(atomise(b))
    r = 0
    for f, m in pb.items():
        x = full(w)
        for (i, s) in f:
            at = BYID[i]
            if at.op == "rep": y = rep(at.args[0], w)
            else: y = _rep1(i, -s, w)
            x = and_(x, y, w)
        r = xor(r, x, w)
    return r
def _rep1(i, bit, w): 
    # bit may be given relative to the atom
    t = bitof(BYID[i], bit)
    a = mk("rep", (t,), w)
    return a
def bitof(a, k):
    if isinstance(a, int): return (a >> k) & 1
    if a.op == "add":
        r = add_range(a)
        if r and r[0] >> k == r[1] >> k: return (r[0] >> k) & 1
    p = {}
    for f, m in poly_of(a).items():
        m = (m >> k) & 1
        if m: p[tuple((i, s - k) for i, s in f)] = m
    return from_poly(p, 1)
def sext(a, w0, w):
    if isinstance(a, int): return (a | (full(w) & ~full(w0))) if a >> (w0 - 1) & 1 else a
    if w == w0: return a
    if not (a.sup >> (w0 - 1)) & 1: return zext(a, w0, w)
    s = rep(bitof(a, w0 - 1), w)
    return xor(zext(a, w0, w), and_(s, full(w) & ~full(w0), w), w)
def ashr(a, k, w):
    if k >= w: k = w - 1
    if isinstance(a, int):
        r = a >> k
        if a >> (w - 1) & 1: r |= full(w) & ~(full(w) >> k)
        return r
    if k == 0: return a
    r = lshr(a, k, w)
    if not (a.sup >> (w - 1)) & 1: return r
    s = rep(bitof(a, w - 1), w)
    return xor(r, and_(s, full(w) & ~(full(w) >> k), w), w)
def concat(parts):
    """parts: list of (value, width), least significant first"""
    r = 0; k = 0; W = sum(w for _, w in parts)
    p = {}
    for v, w in parts:
        for f, m in P(v, w).items():
            g = tuple((i, s + k) for i, s in f)
            n = p.get(g, 0) ^ (m << k)
            if n: p[g] = n
            else: p.pop(g, None)
        k += w
    return from_poly(p, W)
def extract(a, lo, w):
    """bits lo .. lo+w-1"""
    if isinstance(a, int): return (a >> lo) & full(w)
    if lo == 0:
        if w == a.w: return a
        return trunc(a, a.w, w)
    F = full(w); p = {}
    for f, m in poly_of(a).items():
        m = (m >> lo) & F
        if m: p[tuple((i, s - lo) for i, s in f)] = m
    return from_poly(p, w)
def ite(c, a, b, w):
    if isinstance(c, int): return a if c else b
    if a is b or (isinstance(a, int) and a == b): return a
    if len(poly_of(c)) > 8: c = atomise(c)
    d = xor(a, b, w)
    if isinstance(d, Term) and len(poly_of(d)) > 40: d = atomise(d)
    return xor(and_(rep(c, w), d, w), b, w)

# ---- arithmetic -------------------------------------------------------------------------------
def _lin(a, w, acc, k):
    """add k*a to acc = [const, {term:coef}]"""
    F = full(w)
    if isinstance(a, int): acc[0] = (acc[0] + k * a) & F; return
    if a.op == "add":
        acc[0] = (acc[0] + k * a.args[0]) & F
        for t, c in a.args[1]:
            n = (acc[1].get(t, 0) + k * c) & F
            if n: acc[1][t] = n
            else: acc[1].pop(t, None)
        return
    if a.op == "B":
        p = a.poly
        if len(p) == 1:
            (f, m), = p.items()
            if len(f) == 1:
                i, s = f[0]; at = BYID[i]
                if s > 0 and at.w == w and m == (at.sup << s) & F:
                    _lin(at, w, acc, (k << s) & F); return
        if len(p) <= 2:     # select between two constants by one bit
            g = [f for f in p if f]
            if len(g) == 1 and all(sh == 0 and BYID[i].op == "rep" for i, sh in g[0]):
                c0 = p.get((), 0); c1 = c0 ^ p[g[0]]
                b = 1
                for i, sh in g[0]: b = and_(b, BYID[i].args[0], 1)
                b = zext(b, 1, w)
                acc[0] = (acc[0] + k * c0) & F
                n = (acc[1].get(b, 0) + k * (c1 - c0)) & F
                if n: acc[1][b] = n
                else: acc[1].pop(b, None)
                return
        # -x  is ~x + 1 : complement of a linear form
        c = p.get(())
        if c == F or c == F ^ 1 and w > 1 and all(m == 1 for f, m in p.items() if f):
            q = dict(p); del q[()]
            if c != F: q[()] = 1
            y = from_poly(q, w)      # a = ~y = -1 - y
            acc[0] = (acc[0] - k) & F
            _lin(y, w, acc, (-k) & F); return
        if len(p) > 1 and len(p) <= 12:
            # split into disjoint pieces so that concatenations and sums agree
            ms = list(p.values()); tot = 0; dis = True
            for m in ms:
                if tot & m: dis = False; break
                tot |= m
            if dis and any(len(f) == 1 and BYID[f[0][0]].w == w and f[0][1] > 0 and m == (BYID[f[0][0]].sup << f[0][1]) & F for f, m in p.items()):
                for f, m in p.items(): _lin(from_poly({f: m}, w), w, acc, k)
                return
    n = (acc[1].get(a, 0) + k) & F
    if n: acc[1][a] = n
    else: acc[1].pop(a, None)
def _mklin(acc, w):
    c, d = acc
    if not d: return c
    if len(d) == 1 and c == 0:
        (t, k), = d.items()
        if k == 1: return t
        if k & (k - 1) == 0: return shl(t, k.bit_length() - 1, w)
    if len(d) == 1:
        (t, k), = d.items()
        # negation of a bit: all ones mask
        if k == full(w) and t.sup == 1:
            r = rep(bitof(t, 0), w)
            return r if c == 0 else (mk("add", (c, ((t, k),)), w) if not _bit_add(t, c, w) else _bit_add(t, c, w))
        if k == full(w) and c == full(w): return not_(t, w)
        if t.sup == 1 and t.op == "B" and len(t.args) == 1 and w > 1: return xor(and_(rep(bitof(t, 0), w), c ^ ((c + k) & full(w)), w), c, w)
        if k == 1 and t.sup & c == 0: return xor(t, c, w)
    r = mk("add", (c, tuple(sorted(d.items(), key=lambda x: x[0].id))), w)
    if r.sup == full(w):
        u = c
        for t, k in d.items():
            u += t.sup * k
            if u > full(w): break
        if u <= full(w): r.sup = full(u.bit_length())
    return r
def _bit_add(t, c, w):
    # c - bit : select between c and c-1
    return xor(and_(rep(bitof(t, 0), w), (c ^ ((c - 1) & full(w))), w), c, w)
def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & full(w)
    if isinstance(a, int):
        if a == 0: return b
    elif isinstance(b, int):
        if b == 0: return a
    if w == 1: return xor(a, b, 1)
    if RAW: return mk("radd", (a, b), w)
    if isinstance(a, Term) and isinstance(b, Term) and a.sup & b.sup == 0: return xor(a, b, w)
    acc = [0, {}]; _lin(a, w, acc, 1); _lin(b, w, acc, 1)
    return _mklin(acc, w)
def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & full(w)
    if isinstance(b, int) and b == 0: return a
    if a is b: return 0
    if w == 1: return xor(a, b, 1)
    if RAW: return mk("rsub", (a, b), w)
    acc = [0, {}]; _lin(a, w, acc, 1); _lin(b, w, acc, full(w))
    return _mklin(acc, w)
def mulc(a, k, w):
    if isinstance(a, int): return a * k & full(w)
    k &= full(w)
    if k == 0: return 0
    if k == 1: return a
    if a.sup == 1: return and_(rep(bitof(a, 0), w), k, w)
    acc = [0, {}]; _lin(a, w, acc, k)
    return _mklin(acc, w)
def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return a * b & full(w)
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b == 1: return a
        if RAW: return mk("rmul", (a, b), w)
        return mulc(a, b, w)
    if RAW: return mk("rmul", (a, b), w)
    if a.sup == 1: return and_(rep(bitof(a, 0), w), b, w)
    if b.sup == 1: return and_(rep(bitof(b, 0), w), a, w)
    if a.id > b.id: a, b = b, a
    r = mk("mul", (a, b), w)
    u = a.sup * b.sup
    if u <= full(w): r.sup = full(u.bit_length())
    return r
def udiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return a // b if b else full(w)
    if isinstance(b, int) and b and b & (b - 1) == 0: return lshr(a, b.bit_length() - 1, w)
    return mk("udiv", (a, b), w)
def urem(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return a % b if b else a
    if isinstance(b, int) and b and b & (b - 1) == 0: return and_(a, b - 1, w)
    return mk("urem", (a, b), w)
def tosigned(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x, y = tosigned(a, w), tosigned(b, w)
        if y == 0: return full(w) if x >= 0 else 1
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & full(w)
    if isinstance(a, Term) and isinstance(b, int) and not (a.sup >> (w - 1)) and not (b >> (w - 1)): return udiv(a, b, w)
    return mk("sdiv", (a, b), w)
def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x, y = tosigned(a, w), tosigned(b, w)
        if y == 0: return a
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & full(w)
    if isinstance(a, Term) and isinstance(b, int) and not (a.sup >> (w - 1)) and not (b >> (w - 1)): return urem(a, b, w)
    return mk("srem", (a, b), w)
def vshift(op, a, b, w):
    """shift by a possibly symbolic amount"""
    if isinstance(b, int):
        if b >= w: return 0 if op != "ashr" else ashr(a, w - 1, w)
        return {"shl": shl, "lshr": lshr, "ashr": ashr}[op](a, b, w)
    # small amounts: select over the bits of the amount
    nb = b.sup.bit_length()
    if b.sup.bit_count() <= 6 and nb <= 16:
        r = a
        for k in range(nb):
            if b.sup >> k & 1:
                s = {"shl": shl, "lshr": lshr, "ashr": ashr}[op](r, 1 << k, w) if (1 << k) < w else (0 if op != "ashr" else ashr(r, w - 1, w))
                r = ite(bitof(b, k), s, r, w)
        return r
    return mk("v" + op, (a, b), w)

# ---- comparisons ------------------------------------------------------------------------------
def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return 1 if a == b else 0
    if a is b: return 1
    if (isinstance(a, Term) and a.op == "add") or (isinstance(b, Term) and b.op == "add"):
        d = sub(a, b, w)
        if isinstance(d, int): return 1 if d == 0 else 0
        e = sub(b, a, w)
        if isinstance(e, Term) and e.id < d.id: d = e
        return eq0(d)
    return eq0(xor(a, b, w))
def eq0(x):
    if isinstance(x, int): return 1 if x == 0 else 0
    if x.op == "B" and len(x.args) == 1 and len(x.args[0][0]) == 1:
        (i, sh), = x.args[0][0]; o = BYID[i]; m = x.args[0][1]
        if o.op == "or" and sh <= 0 and m == (o.sup >> -sh) & full(x.w) and o.sup & ((1 << -sh) - 1) == 0: x = o
    if x.op == "or" and len(x.args) <= 80:
        r = 1
        for t in x.args: r = and_(r, eq0(t), 1)
        return r
    if x.op == "B" and len(x.args) in (3, 7, 15):   # a | b | .. written out
        ms = {m for _, m in x.args}; at = [f for f, _ in x.args if len(f) == 1]
        if len(ms) == 1 and (1 << len(at)) - 1 == len(x.args) and {f for f, _ in x.args} == {frozenset(q for k, (q,) in enumerate(map(tuple, at)) if i >> k & 1) if isinstance(x.args[0][0], frozenset) else tuple(sorted(q for k, (q,) in enumerate(map(tuple, at)) if i >> k & 1)) for i in range(1, 1 << len(at))}:
            r = 1; m, = ms
            for f in at: r = and_(r, eq0(from_poly({f: m}, x.w)), 1)
            return r
    if x.op in ("B",):
        s = x.sup
        lo = (s & -s).bit_length() - 1; wd = s.bit_length() - lo
        if lo or wd != x.w: x = extract(x, lo, wd)
        if x.w == 1: return not_(x, 1)
        # a constant part outside every other monomial's mask can never cancel
        c = x.poly.get(()) if x.op == "B" else None
        if c:
            o = 0
            for f, m in x.poly.items():
                if f: o |= m
            if c & ~o: return 0
    elif x.sup != full(x.w):
        wd = x.sup.bit_length()
        if wd < x.w: return eq0(trunc_keep(x, wd))
    if x.w == 1: return not_(x, 1)
    if x.op == "rep": return not_(x.args[0], 1)
    return mk("eq0", (x,), 1)
def trunc_keep(x, w):
    p = {f: m & full(w) for f, m in poly_of(x).items() if m & full(w)}
    return from_poly(p, w)
def umax(a): return a if isinstance(a, int) else a.sup
def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return 1 if a < b else 0
    if a is b: return 0
    if isinstance(b, int):
        if b == 0: return 0
        if umax(a) < b: return 1
        if b == 1: return eq(a, 0, w)
        # a < 2^k : no high bits
        if b & (b - 1) == 0: return eq0(lshr(a, b.bit_length() - 1, w))
    if isinstance(a, int):
        if a == full(w): return 0
        if a == 0: return not_(eq(b, 0, w), 1)
        if umax(b) <= a: return 0
        if (a + 1) & a == 0: return not_(eq0(lshr(b, (a + 1).bit_length() - 1, w)), 1)
    if isinstance(b, int) and isinstance(a, Term) and a.op == "add":
        r = add_range(a)
        if r and r[1] < b: return 1
        if r and r[0] >= b: return 0
    m = max(umax(a), umax(b)).bit_length()
    if m < w:
        a = trunc(a, w, m) if isinstance(a, int) or a.op == "B" else trunc_keep(a, m)
        b = trunc(b, w, m) if isinstance(b, int) or b.op == "B" else trunc_keep(b, m)
        w = m
        if w == 1: return and_(not_(a, 1), b, 1)
    return mk("ult", (a, b), 1)
def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return 1 if tosigned(a, w) < tosigned(b, w) else 0
    sb = 1 << (w - 1)
    if not umax(a) & sb and not umax(b) & sb: return ult(a, b, w)
    if isinstance(b, int) and b == 0: return bitof(a, w - 1)
    if isinstance(a, int) and a == full(w): return not_(bitof(b, w - 1), 1)
    return ult(xor(a, sb, w), xor(b, sb, w), w)
def icmp(pred, a, b, w):
    if pred == "eq": return eq(a, b, w)
    if pred == "ne": return not_(eq(a, b, w), 1)
    if pred == "ult": return ult(a, b, w)
    if pred == "ugt": return ult(b, a, w)
    if pred == "uge": return not_(ult(a, b, w), 1)
    if pred == "ule": return not_(ult(b, a, w), 1)
    if pred == "slt": return slt(a, b, w)
    if pred == "sgt": return slt(b, a, w)
    if pred == "sge": return not_(slt(a, b, w), 1)
    if pred == "sle": return not_(slt(b, a, w), 1)
    raise ValueError(pred)

# ---- tables and uninterpreted functions --------------------------------------------------------
LUTS = {}; LUTL = []
def lut(table, idx, iw):
    """table: bytes of length 2^iw, idx: iw-bit value -> 8-bit value"""
    if isinstance(idx, int): return table[idx]
    if table.count(table[0]) == len(table): return table[0]
    if iw <= 8 and all(table[i] == i for i in range(len(table))): return zext(idx, iw, 8)
    # affine over GF(2): express with bit operations
    c = table[0]; lin = True
    cols = [table[1 << k] ^ c for k in range(iw)]
    for i in range(len(table)):
        v = c
        for k in range(iw):
            if i >> k & 1: v ^= cols[k]
        if v != table[i]: lin = False; break
    if lin and iw <= 8:
        r = c
        for k in range(iw): r = xor(r, and_(rep(bitof(idx, k), 8), cols[k], 8), 8)
        return r
    n = LUTS.get(table)
    if n is None: n = LUTS[table] = len(LUTL); LUTL.append(table)
    # canonical under xor of the index by a constant
    return mk("lut", (n, idx, iw), 8)
def uf(name, args, outw):
    """args: tuple of (value,width)"""
    return mk("uf", (name, args), outw)

# ---- evaluation -------------------------------------------------------------------------------
def children(t):
    if t.op == "var": return []
    if t.op == "B":
        r = []
        for f, m in t.args:
            for i, s in f: r.append(BYID[i])
        return r
    if t.op == "add": return [x for x, k in t.args[1]]
    if t.op == "lut": return [t.args[1]] if isinstance(t.args[1], Term) else []
    if t.op == "uf": return [v for v, w in t.args[1] if isinstance(v, Term)]
    return [x for x in t.args if isinstance(x, Term)]
def evaluate(t, env, ufeval, cache=None):
    """concrete value of a term under env: var name -> int"""
    if isinstance(t, int): return t
    if cache is None: cache = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache: stack.pop(); continue
        todo = [c for c in children(x) if c.id not in cache]
        if todo: stack.extend(todo); continue
        stack.pop(); cache[x.id] = _ev1(x, env, ufeval, cache)
    return cache[t.id]
def _ev1(x, env, ufeval, cache):
    g = lambda v: v if isinstance(v, int) else cache[v.id]
    op = x.op; w = x.w; F = full(w)
    if op == "var": return env.get(x.args[0], 0) & F
    if op == "B":
        r = 0
        for f, m in x.args:
            v = m
            for i, s in f:
                a = cache[i]; v &= (a << s) if s >= 0 else (a >> -s)
            r ^= v
        return r & F
    if op == "add":
        r = x.args[0]
        for t, k in x.args[1]: r += k * cache[t.id]
        return r & F
    if op == "name": return g(x.args[0])
    if op == "or":
        r = 0
        for t in x.args: r |= cache[t.id]
        return r & F
    if op == "rep": return F if g(x.args[0]) & 1 else 0
    if op in ("mul", "rmul"): return g(x.args[0]) * g(x.args[1]) & F
    if op == "radd": return (g(x.args[0]) + g(x.args[1])) & F
    if op == "rsub": return (g(x.args[0]) - g(x.args[1])) & F
    if op == "eq0": return 1 if g(x.args[0]) == 0 else 0
    if op == "ult": return 1 if g(x.args[0]) < g(x.args[1]) else 0
    if op == "lut": return LUTL[x.args[0]][g(x.args[1])]
    if op == "uf": return ufeval(x, [(g(v), wd) for v, wd in x.args[1]]) & F
    if op == "udiv": return udiv(g(x.args[0]), g(x.args[1]), w)
    if op == "urem": return urem(g(x.args[0]), g(x.args[1]), w)
    if op == "sdiv": return sdiv(g(x.args[0]), g(x.args[1]), w)
    if op == "srem": return srem(g(x.args[0]), g(x.args[1]), w)
    if op in ("vshl", "vlshr", "vashr"): return vshift(op[1:], g(x.args[0]), g(x.args[1]), w)
    raise ValueError(op)

# ---- z3 translation ---------------------------------------------------------------------------
_z3cache = {}
def to_z3(t, w=None):
    if isinstance(t, int): return z3.BitVecVal(t, w)
    if t.id in _z3cache: return _z3cache[t.id]
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _z3cache: stack.pop(); continue
        todo = [c for c in children(x) if c.id not in _z3cache] if x.op != "uf" else None
        if todo: stack.extend(todo); continue
        stack.pop(); _z3cache[x.id] = _z1(x)
    return _z3cache[t.id]
def _zshift(a, aw, s, lo, n):
    """bits lo..lo+n-1 of (a << s), as a bit-vector of width n; all those bits lie inside a"""
    return z3.Extract(lo - s + n - 1, lo - s, a)
def _z1(x):
    def g(v, w):
        return z3.BitVecVal(v, w) if isinstance(v, int) else _z3cache[v.id]
    op = x.op; w = x.w
    if op == "var": return z3.BitVec(x.args[0], w)
    if op == "B":
        r = None
        for f, m in x.args:
            # mask as runs of ones
            if not f: v = z3.BitVecVal(m, w)
            else:
                parts = []; pos = 0   # least significant first
                mm = m
                while mm:
                    lo = (mm & -mm).bit_length() - 1
                    run = mm >> lo; n = (~run & (run + 1)).bit_length() - 1
                    if lo > pos: parts.append(z3.BitVecVal(0, lo - pos))
                    y = None
                    for i, s in f:
                        e = _zshift(_z3cache[i], BYID[i].w, s, lo, n)
                        y = e if y is None else (y & e)
                    parts.append(y); pos = lo + n
                    mm &= ~(((1 << n) - 1) << lo)
                if pos < w: parts.append(z3.BitVecVal(0, w - pos))
                v = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
            r = v if r is None else r ^ v
        return r
    if op == "add":
        r = z3.BitVecVal(x.args[0], w)
        for t, k in x.args[1]: r = r + (_z3cache[t.id] if k == 1 else _z3cache[t.id] * z3.BitVecVal(k, w))
        return r
    if op == "name": return _z3cache[x.args[0].id]
    if op == "or":
        r = None
        for t in x.args:
            y = _z3cache[t.id]; r = y if r is None else r | y
        return r
    if op == "rep":
        return z3.If(_z3cache[x.args[0].id] == 1, z3.BitVecVal(full(w), w), z3.BitVecVal(0, w))
    if op in ("mul", "rmul"): return g(x.args[0], w) * g(x.args[1], w)
    if op == "radd": return g(x.args[0], w) + g(x.args[1], w)
    if op == "rsub": return g(x.args[0], w) - g(x.args[1], w)
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    if op == "eq0":
        return z3.If(_z3cache[x.args[0].id] == 0, one, zero)
    if op == "ult":
        a, b = x.args; ww = a.w if isinstance(a, Term) else b.w
        return z3.If(z3.ULT(g(a, ww), g(b, ww)), one, zero)
    if op == "lut":
        tb = LUTL[x.args[0]]; i = _z3cache[x.args[1].id]; iw = x.args[2]
        def tree(lo, n, bit):
            if n == 1: return z3.BitVecVal(tb[lo], 8)
            h = n // 2
            a, b = tree(lo, h, bit - 1), tree(lo + h, h, bit - 1)
            if a.eq(b): return a
            return z3.If(z3.Extract(bit, bit, i) == 1, b, a)
        return tree(0, len(tb), iw - 1)
    if op == "uf": return z3.BitVec("uf!%d" % x.id, w)
    if op == "udiv": return z3.UDiv(g(x.args[0], w), g(x.args[1], w))
    if op == "urem": return z3.URem(g(x.args[0], w), g(x.args[1], w))
    if op == "sdiv": return g(x.args[0], w) / g(x.args[1], w)
    if op == "srem": return z3.SRem(g(x.args[0], w), g(x.args[1], w))
    if op == "vshl": return g(x.args[0], w) << g(x.args[1], w)
    if op == "vlshr": return z3.LShR(g(x.args[0], w), g(x.args[1], w))
    if op == "vashr": return g(x.args[0], w) >> g(x.args[1], w)
    raise ValueError(op)
def vars_of(ts):
    seen = set(); out = {}; st = [t for t in ts if isinstance(t, Term)]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "var": out[x.args[0]] = x
        st.extend(children(x))
    return out
def show(t, d=4):
    if isinstance(t, int): return hex(t)
    if d == 0: return "..%d" % t.id
    if t.op == "var": return t.args[0]
    if t.op == "B":
        s = []
        for f, m in t.args[:6]:
            s.append("&".join(("%s<<%d" % (show(BYID[i], d - 1), sh) if sh else show(BYID[i], d - 1)) for i, sh in f) + (":%x" % m))
        return "B%d(%s%s)" % (t.w, " ^ ".join(s), " ^.." if len(t.args) > 6 else "")
    if t.op == "add": return "(%s)" % " + ".join(["%x" % t.args[0]] + ["%s*%s" % (hex(k), show(x, d - 1)) for x, k in t.args[1][:6]])
    if t.op == "uf": return "%s[%d](%s)" % (t.args[0], t.w, ", ".join(show(v, d - 1) for v, w in t.args[1][:4]))
    if t.op == "lut": return "lut%d(%s)" % (t.args[0], show(t.args[1], d - 1))
    return "%s(%s)" % (t.op, ", ".join(show(a, d - 1) for a in t.args))
