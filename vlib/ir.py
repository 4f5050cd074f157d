"""Parser for textual LLVM 18 IR and generator of Python code that executes it over concrete-or-symbolic values."""
import re
# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "fields", "packed", "size", "align", "offs")
    def __init__(s, k): s.k = k; s.n = 0; s.e = None; s.fields = None; s.packed = False; s.size = 0; s.align = 1; s.offs = None
def _int(n):
    t = Ty("i"); t.n = n
    b = (n + 7) // 8
    a = 1
    while a < b: a *= 2
    t.align = min(a, 16); t.size = (b + t.align - 1) // t.align * t.align
    return t
_ints = {}
def I(n):
    if n not in _ints: _ints[n] = _int(n)
    return _ints[n]
PTR = Ty("ptr"); PTR.size = PTR.align = 8; PTR.n = 64
VOID = Ty("void")
def layout(t):
    if t.k == "arr": t.size = t.e.size * t.n; t.align = t.e.align
    elif t.k == "vec":
        t.size = (t.e.n * t.n + 7) // 8; a = 1
        while a < t.size: a *= 2
        t.align = a; t.size = a
    elif t.k == "struct":
        o = 0; al = 1; t.offs = []
        for f in t.fields:
            if not t.packed: o = (o + f.align - 1) // f.align * f.align; al = max(al, f.align)
            t.offs.append(o); o += f.size
        t.align = al; t.size = (o + al - 1) // al * al
    return t

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@]"(?:[^"\\]|\\.)*"|[%@][-\w.$]+|!\w*|#\d+|<\{|\}>|\.\.\.|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|0x[0-9A-Fa-f]+|[A-Za-z_][\w.]*|[(){}\[\]<>,=*:|;])''')
def toks(s):
    r = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise SyntaxError("tok: " + s[i:i + 60] + " in " + s[:200])
        t = m.group(1); i = m.end()
        if t == ";": break
        r.append(t)
    return r
class Rd:
    def __init__(s, t): s.t = t; s.i = 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s): s.i += 1; return s.t[s.i - 1]
    def acc(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def exp(s, x):
        if s.t[s.i] != x: raise SyntaxError("expected %s at %s" % (x, " ".join(s.t[max(0, s.i - 8):s.i + 8])))
        s.i += 1
def unstr(t):
    """bytes of a c"..." token"""
    s = t[2:-1] if t[0] == "c" else t[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\": out.append(92); i += 2
        elif s[i] == "\\": out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)
ATTRS = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "immarg", "returned", "inreg", "noreturn", "nounwind", "allocptr", "allocalign", "dso_local", "nofree", "local_unnamed_addr", "unnamed_addr", "fastcc", "ccc", "swiftself", "mustprogress", "writable", "dead_on_unwind"}
def skip_attrs(r):
    while True:
        p = r.peek()
        if p in ATTRS: r.next()
        elif p in ("align", ) : r.next(); (r.next() if r.peek() != "(" else [r.next(), r.next(), r.next()])
        elif p in ("dereferenceable", "dereferenceable_or_null", "range", "captures", "allocsize", "memory"):
            r.next(); d = 0
            while True:
                x = r.next()
                if x == "(": d += 1
                elif x == ")":
                    d -= 1
                    if d == 0: break
        elif p in ("byval", "sret", "elementtype"):
            r.next(); r.exp("("); d = 1
            while d:
                x = r.next(); d += (x == "(") - (x == ")")
        else: return
class Func:
    def __init__(s, name): s.name = name; s.params = []; s.blocks = {}; s.order = []; s.ret = VOID; s.vararg = False; s.nregs = 0; s.regidx = {}; s.code = {}; s.mod = None; s.uses = None
class Module:
    def __init__(s, text):
        s.types = {}; s.pending = {}; s.globals = {}; s.funcs = {}; s.decls = set(); s.aliases = {}
        s.parse(text)
    # -- types
    def ty(s, r):
        t = s.ty0(r)
        while True:
            if r.peek() == "(" and t.k != "x":      # function type: only in calls
                save = r.i; r.next(); d = 1
                # function type such as  i32 (ptr, ...)
                while d:
                    x = r.next(); d += (x == "(") - (x == ")")
                f = Ty("fn"); f.e = t
                return f
            return t
    def ty0(s, r):
        x = r.next()
        if x == "void": return VOID
        if x == "ptr":
            return PTR
        if x[0] == "i" and x[1:].isdigit(): return I(int(x[1:]))
        if x == "[":
            n = int(r.next()); r.exp("x"); e = s.ty0(r); r.exp("]")
            t = Ty("arr"); t.n = n; t.e = e; return layout(t)
        if x == "<":
            n = int(r.next()); r.exp("x"); e = s.ty0(r); r.exp(">")
            t = Ty("vec"); t.n = n; t.e = e; return layout(t)
        if x in ("{", "<{"):
            t = Ty("struct"); t.packed = x == "<{"; t.fields = []; end = "}" if x == "{" else "}>"
            if not r.acc(end):
                while True:
                    t.fields.append(s.ty0(r))
                    if r.acc(end): break
                    r.exp(",")
            return layout(t)
        if x[0] == "%":
            return s.named(x)
        if x in ("float", "double"): return I(32 if x == "float" else 64)   # moved and stored as bits; arithmetic is refused
        if x in ( "x86_fp80", "metadata", "label", "opaque", "half", "token"):
            t = Ty(x); t.size = t.align = 8; return t
        raise SyntaxError("type " + x)
    def named(s, x):
        if x in s.types: return s.types[x]
        if x in s.pending:
            txt = s.pending.pop(x)
            if txt.strip() == "opaque":
                t = Ty("opaque")
            else: t = s.ty0(Rd(toks(txt)))
            s.types[x] = t; return t
        t = Ty("opaque"); s.types[x] = t; return t
    # -- constants: ('c', int) | ('u',) undef | ('z', ty) zero | ('agg', [..]) | ('g', name, off) | ('s', bytes) | ('ce', op, ...)
    def const(s, r, t):
        x = r.next()
        if x in ("null", "zeroinitializer", "none"): return ("z", t) if t.k not in ("i", "ptr") else ("c", 0)
        if x in ("undef", "poison"): return ("u", t)
        if x == "true": return ("c", 1)
        if x == "false": return ("c", 0)
        if x in ("0.000000e+00",): return ("c", 0)
        if re.match(r"-?\d+$", x): return ("c", int(x) & ((1 << t.n) - 1))
        if x[0] == "@": return ("g", x, 0)
        if x[0] == "c" and x[1:2] == '"': return ("s", unstr(x))
        if x in ("[", "{", "<", "<{"):
            end = {"[": "]", "{": "}", "<": ">", "<{": "}>"}[x]; out = []
            if not r.acc(end):
                while True:
                    et = s.ty(r); out.append(s.const(r, et))
                    if r.acc(end): break
                    r.exp(",")
            return ("agg", out)
        if x == "getelementptr":
            r.acc("inbounds"); r.exp("("); bt = s.ty(r); r.exp(","); pt = s.ty(r); base = s.const(r, pt); idx = []
            while r.acc(","):
                r.acc("inrange"); it = s.ty(r); idx.append((s.const(r, it), it))
            r.exp(")")
            off = 0; cur = bt
            for k, (c, it) in enumerate(idx):
                v = c[1]; v = v - (1 << it.n) if v >> (it.n - 1) & 1 else v
                if k == 0: off += v * bt.size
                elif cur.k == "struct": off += cur.offs[v]; cur = cur.fields[v]
                else: off += v * cur.e.size; cur = cur.e
            if base[0] == "g": return ("g", base[1], base[2] + off)
            if base[0] == "c": return ("c", (base[1] + off) & ((1 << 64) - 1))
            raise SyntaxError("gep const")
        if x in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            r.exp("("); ft = s.ty(r); c = s.const(r, ft); r.exp("to"); s.ty(r); r.exp(")"); return c
        if x in ("sub", "add"):
            r.acc("nuw"); r.acc("nsw"); r.exp("("); t1 = s.ty(r); a = s.const(r, t1); r.exp(","); t2 = s.ty(r); b = s.const(r, t2); r.exp(")")
            return ("ce", x, a, b, t1.n)
        if re.match(r"-?\d+\.\d+|0x", x): return ("c", 0)
        raise SyntaxError("const " + x + " " + " ".join(r.t[max(0, r.i - 6):r.i + 6]))
    def parse(s, text):
        lines = text.split("\n"); i = 0; n = len(lines)
        for l in lines:
            m = re.match(r'(%[\w.$"-]+) = type (.*)$', l)
            if m: s.pending[m.group(1)] = m.group(2)
        for k in list(s.pending): s.named(k)
        while i < n:
            l = lines[i]
            if l.startswith("@"): s.parse_global(l)
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                s.parse_func(l, lines[i + 1:j]); i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); s.decls.add("@" + m.group(1))
            i += 1
    def parse_global(s, l):
        r = Rd(toks(l)); name = r.next(); r.exp("=")
        ext = False; const = False
        while True:
            p = r.peek()
            if p in ("external", "extern_weak"): ext = True; r.next()
            elif p in ("private", "internal", "common", "dso_local", "unnamed_addr", "local_unnamed_addr", "hidden", "linkonce_odr", "weak", "appending", "weak_odr", "linkonce"): r.next()
            elif p == "thread_local":
                r.next()
                if r.acc("("): r.next(); r.exp(")")
            elif p in ("global", "constant"): const = p == "constant"; r.next(); break
            elif p == "alias":
                return
            else: raise SyntaxError("global " + l[:200])
        t = s.ty0(r)
        init = None
        if not ext: init = s.const(r, t)
        s.globals[name] = (t, init, const)
    def parse_func(s, head, lines):
        m = re.search(r'@("[^"]+"|[\w.$-]+)\(', head); name = "@" + m.group(1)
        f = Func(name); f.mod = s
        r = Rd(toks(head[:head.rfind("{")])) if False else Rd(toks(head[len("define"):m.start()] + " " + name))
        while True:
            p = r.peek()
            if p in ATTRS or p in ("internal", "private", "hidden", "linkonce_odr", "weak", "available_externally", "protected", "weak_odr", "linkonce"): r.next()
            else:
                k = r.i; skip_attrs(r)
                if r.i == k: break
        f.ret = s.ty0(r)
        # params
        rest = head[m.end():]
        r = Rd(toks(rest.split(" #")[0].split(" !dbg")[0].rstrip("{ ")))
        if not r.acc(")"):
            while True:
                if r.acc("..."): f.vararg = True; r.exp(")"); break
                t = s.ty0(r); byval = r.peek() == "byval"; skip_attrs(r)
                nm = r.next() if r.peek() not in (",", ")") else "%%arg%d" % len(f.params)
                f.params.append((nm, t))
                if r.acc(")"): break
                r.exp(",")
        for nm, t in f.params: f.regidx[nm] = len(f.regidx)
        cur = None; acc = ""
        j = 0
        while j < len(lines):
            l = lines[j]; j += 1
            if not l.strip() or l.lstrip().startswith(";"): continue
            mm = re.match(r'("[^"]+"|[\w.$-]+):', l)
            if mm and not l.startswith(" "):
                cur = "%" + mm.group(1); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                # unnamed entry block: its label is the number after the parameters
                cur = "%%%d" % len(f.params); f.blocks[cur] = []; f.order.append(cur)
            if l.rstrip().endswith("["):   # switch
                while not lines[j].strip().startswith("]"): l += " " + lines[j].strip(); j += 1
                l += " ]"; j += 1
            f.blocks[cur].append(l.strip())
        s.funcs[name] = f
        f.parsed = {}
    # -- instructions
    def instrs(s, f, b):
        if b in f.parsed: return f.parsed[b]
        out = [s.instr(f, l) for l in f.blocks[b]]
        f.parsed[b] = out
        return out
    def reg(s, f, nm):
        i = f.regidx.get(nm)
        if i is None: i = f.regidx[nm] = len(f.regidx)
        return i
    def val(s, f, r, t):
        p = r.peek()
        if p[0] == "%": r.next(); return ("r", s.reg(f, p))
        return s.const(r, t)
    def tval(s, f, r):
        t = s.ty(r); skip_attrs(r); return t, s.val(f, r, t)
    def instr(s, f, l):
        # strip metadata
        k = l.find(", !")
        if k >= 0: l = l[:k]
        k = l.find(" !srcloc")
        if k >= 0: l = l[:k].rstrip(",")
        if " asm " in l:
            return s.asm(f, l)
        r = Rd(toks(l)); d = None
        if r.peek()[0] == "%" and r.t[1] == "=": d = s.reg(f, r.next()); r.exp("=")
        op = r.next()
        if op in ("tail", "musttail", "notail"): op = r.next()
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            fl = set()
            while r.peek() in ("nuw", "nsw", "exact", "disjoint"): fl.add(r.next())
            t = s.ty(r); a = s.val(f, r, t); r.exp(","); b = s.val(f, r, t)
            return ("bin", d, op, t, a, b, fl)
        if op == "icmp":
            pr = r.next(); t = s.ty(r); a = s.val(f, r, t); r.exp(","); b = s.val(f, r, t); return ("icmp", d, pr, t, a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            r.acc("nneg"); r.acc("nuw"); r.acc("nsw")
            t = s.ty(r); a = s.val(f, r, t)
            if op == "freeze": return ("cast", d, "bitcast", t, a, t)
            r.exp("to"); t2 = s.ty(r); return ("cast", d, op, t, a, t2)
        if op == "load":
            r.acc("volatile"); t = s.ty(r); r.exp(","); _, p = s.tval(f, r); return ("load", d, t, p)
        if op == "store":
            r.acc("volatile"); t, v = s.tval(f, r); r.exp(","); _, p = s.tval(f, r); return ("store", t, v, p)
        if op == "alloca":
            t = s.ty(r); n = None
            if r.acc(","):
                if r.peek() != "align": n = s.tval(f, r)
            return ("alloca", d, t, n)
        if op == "getelementptr":
            while r.peek() in ("inbounds", "nuw", "nusw"): r.next()
            bt = s.ty(r); r.exp(","); _, base = s.tval(f, r); idx = []
            while r.acc(","): idx.append(s.tval(f, r))
            return ("gep", d, bt, base, idx)
        if op == "br":
            if r.peek() == "label": r.next(); return ("br", r.next())
            _, c = s.tval(f, r); r.exp(","); r.exp("label"); a = r.next(); r.exp(","); r.exp("label"); b = r.next()
            return ("cbr", c, a, b)
        if op == "switch":
            t, v = s.tval(f, r); r.exp(","); r.exp("label"); df = r.next(); r.exp("["); cs = []
            while not r.acc("]"):
                _, c = s.tval(f, r); r.exp(","); r.exp("label"); cs.append((c[1], r.next()))
            return ("switch", t, v, df, cs)
        if op == "ret":
            t = s.ty(r)
            return ("ret", None if t.k == "void" else s.val(f, r, t), t)
        if op == "unreachable": return ("unreachable",)
        if op == "phi":
            t = s.ty(r); inc = {}
            while True:
                r.exp("["); v = s.val(f, r, t); r.exp(","); inc[r.next()] = v; r.exp("]")
                if not r.acc(","): break
            return ("phi", d, t, inc)
        if op == "select":
            ct, c = s.tval(f, r); r.exp(","); t, a = s.tval(f, r); r.exp(","); _, b = s.tval(f, r); return ("select", d, t, c, a, b)
        if op == "call":
            skip_attrs(r); t = s.ty(r)
            if t.k == "fn": t = t.e
            callee = r.next()
            if callee[0] == "%": cv = ("r", s.reg(f, callee))
            else: cv = ("g", callee, 0)
            r.exp("("); args = []
            if not r.acc(")"):
                while True:
                    if r.peek() == "metadata": args = None; break
                    args.append(s.tval(f, r))
                    if r.acc(")"): break
                    r.exp(",")
            return ("call", d, t, cv, args)
        if op == "extractvalue":
            t, a = s.tval(f, r); idx = []
            while r.acc(","): idx.append(int(r.next()))
            return ("exval", d, t, a, idx)
        if op == "insertvalue":
            t, a = s.tval(f, r); r.exp(","); t2, v = s.tval(f, r); idx = []
            while r.acc(","): idx.append(int(r.next()))
            return ("insval", d, t, a, t2, v, idx)
        if op == "extractelement":
            t, a = s.tval(f, r); r.exp(","); _, i = s.tval(f, r); return ("exel", d, t, a, i)
        if op == "insertelement":
            t, a = s.tval(f, r); r.exp(","); _, v = s.tval(f, r); r.exp(","); _, i = s.tval(f, r); return ("insel", d, t, a, v, i)
        if op == "shufflevector":
            t, a = s.tval(f, r); r.exp(","); _, b = s.tval(f, r); r.exp(","); mt, m = s.tval(f, r); return ("shuf", d, t, a, b, m, mt)
        raise SyntaxError("instr " + l[:200])
    def asm(s, f, l):
        m = re.match(r'(?:(%[\w.]+) = )?(?:tail )?call (.*?) asm (?:sideeffect )?(?:alignstack )?"((?:[^"\\]|\\.)*)", "([^"]*)"\((.*)\)', l)
        d = s.reg(f, m.group(1)) if m.group(1) else None
        t = s.ty0(Rd(toks(m.group(2))))
        a = m.group(5); args = []
        if a.strip():
            r = Rd(toks(a))
            while True:
                args.append(s.tval(f, r))
                if not r.acc(","): break
        return ("asm", d, t, unstr('"' + m.group(3) + '"').decode(), m.group(4), args)
