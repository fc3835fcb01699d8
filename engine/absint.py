"""Path-sensitive abstract interpretation of the dumped LLVM IR.

Values are hash-consed terms (term.py).  A state holds an abstract memory (address term -> value term), must-facts
established by the branches taken (truth of comparison terms, integer ranges) and a property-automaton state.
Loops are solved to a fixpoint: the first iteration is separated, then every location and phi that any iteration
changes is widened to an unknown, and every property-automaton state that reaches the loop head is propagated.
Nothing is executed and no path is handed to a solver: branch conditions are decided only by constant folding,
ranges and the must-facts."""
import math
import sys
from term import *

sys.setrecursionlimit(20000)
INF = 1 << 70
FULL = (-INF, INF)


class AnalysisError(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "iv", "ne", "prop", "epoch", "zero", "trace", "undef")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.iv = {}
        self.ne = {}
        self.prop = None
        self.epoch = {}
        self.zero = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.iv = dict(self.iv)
        s.ne = dict(self.ne)
        s.prop = self.prop
        s.epoch = dict(self.epoch)
        s.zero = dict(self.zero)
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset((k[0].id, k[1] if not isinstance(k[1], T) else -k[1].id - 1, v.id) for k, v in self.mem.items()),
                frozenset((k.id, v) for k, v in self.facts.items()),
                frozenset((k.id, v) for k, v in self.iv.items()),
                frozenset((k.id, v) for k, v in self.ne.items()), self.prop)

    def note(self, ins, msg):
        self.trace = (self.trace, ins.loc() if ins is not None else "", msg)

    def path(self, n=400):
        out, t = [], self.trace
        while t and len(out) < n:
            out.append("%s: %s" % (t[1], t[2]))
            t = t[0]
        return out[::-1]


class Outcome:
    __slots__ = ("kind", "val", "st", "ins")

    def __init__(self, kind, val, st, ins=None):
        self.kind, self.val, self.st, self.ins = kind, val, st, ins


BOOL = {"cmp", "not", "zeq", "andb", "orb", "bool"}


class Interp:
    def __init__(self, mod, hooks=None, opaque=(), max_paths=60000, prefer_model=True):
        self.m = mod
        self.hooks = dict(hooks or {})
        self.opaque = set(opaque)
        self.max_paths = max_paths
        self.steps = 0
        self.analysed = set()
        self.callsites = set()
        self.unknown = {}
        self.loopcount = 0
        self.on_branch = None
        self.on_store = None
        self.on_load = None
        self.max_steps = 3000000
        self._gstores = None
        self.trace_branches = True
        self.loop_peel = True
        self.maxdepth = 40
        self.undecided = 0
        from models import MODELS
        self.models = MODELS
        self.alts = {}
        self.vaargs = {}

    # -------------------------------------------------------------- globals
    def readonly(self, f, vid, seen):
        """the pointer vid is only read through (or searched) in f"""
        if vid in seen:
            return True
        seen.add(vid)
        for i in f.instrs():
            ops = [x[0] for x in i.o] if i.op == "phi" else (i.o or [])
            use = [k for k, a in enumerate(ops) if a and a[0] == "v" and a[1] == vid]
            if not use:
                continue
            if i.op in ("load", "icmp") or i.op == "call" and self.m.cname(i) == "bsearch":
                continue
            if i.op in ("getelementptr", "phi", "select", "bitcast") and self.readonly(f, i.id, seen):
                continue
            return False
        return True

    def gstored(self):
        if self._gstores is None:
            s = set()
            for f in self.m.fns.values():
                if not f.repo:
                    continue
                for i in f.instrs():
                    if i.op == "store":
                        p = i.o[1]
                        if p[0] == "g":
                            s.add(p[1])
                        v = i.o[0]
                        if v[0] == "g":
                            s.add(v[1])
                    elif i.op == "call":
                        if self.m.cname(i) == "bsearch":
                            continue        # only reads the table
                        for a in i.o:
                            if a[0] == "g":
                                s.add(a[1])
                    elif i.op in ("getelementptr", "phi", "select"):
                        for a in (i.o if i.op != "phi" else [x[0] for x in i.o]):
                            if a[0] == "g" and a[1] not in s and not self.readonly(f, i.id, set()):
                                s.add(a[1])
            self._gstores = s
        return self._gstores

    def ginit(self, name, off):
        g = self.m.globals.get(name)
        if g is None or "init" not in g:
            return None
        for o, sz, v in g["init"]:
            if v[0] == "s":
                d = bytes.fromhex(v[1])
                if o <= off < o + len(d):
                    return I(wrap(d[off - o], 8))
                continue
            if o == off:
                return self.const(v)
        if 0 <= off < g["size"]:
            return ZERO
        return None

    def const(self, v):
        k = v[0]
        if k == "i":
            return I(v[2])
        if k == "I":
            return I(int(v[2]))
        if k == "null":
            return ZERO
        if k == "g":
            return ptradd(mk("G", v[1]), v[2])
        if k == "f":
            return mk("F", v[1])
        if k == "zero":
            return ZERO
        if k == "undef":
            return mk("undef")
        if k == "fp":
            return mk("fp", v[1])
        if k == "ce":
            return self.const(v[2])
        return mk("c?", str(v))

    # -------------------------------------------------------------- memory
    def load(self, st, p, size=8, ins=None):
        if p.op == "px":
            b = p.a[0]
            v = st.mem.get((b, p))
            if v is not None:
                return v
            if b.op == "G" and self.const_global(b.a[0]):
                return mk("ld", p)
            e = st.epoch.get(b, 0)
            if b.op == "H" and b in st.zero and e == 0:
                return ZERO
            return mk("ld", p) if not e else mk("ld", p, e)
        b, o = split(p)
        v = st.mem.get((b, o))
        if v is not None:
            return v
        if b.op == "vec" and o % 8 == 0:
            if o == 0 and b.a[0] >= 0:
                return I(b.a[0] << 57 | len(b.a))
            if 0 < o // 8 < len(b.a):
                return b.a[o // 8]
        if b.op == "G":
            n = b.a[0]
            if n in self.models_globals:
                return self.models_globals[n]
            g = self.m.globals.get(n)
            if g is not None and "init" in g and not st.epoch.get(b):
                if g["const"] or (n not in self.gstored() and g["internal"]) or (n not in self.gstored() and n in ("cfg", "cfg_used", "cfg_set")):
                    r = self.ginit(n, o)
                    if r is not None:
                        return r
        z_ = st.zero.get(b)
        if z_ is not None and not st.epoch.get(b):
            if z_ is True:
                return ZERO
            for lo, hi in z_:
                if lo <= o < hi:
                    return ZERO
        e = st.epoch.get(b, 0)
        if b.op in ("A", "H") and not e:
            if b.op == "A" or (len(b.a) > 1 and b.a[1] in ("malloc", "cgetg")):
                return mk("undef", b, o)
        return mk("ld", p) if not e else mk("ld", p, e)

    def const_global(self, n):
        g = self.m.globals.get(n)
        return g is not None and g["const"]

    models_globals = {"gen_0": z(0), "gen_1": z(1), "gen_2": z(2), "gen_m1": z(-1), "gen_m2": z(-2)}

    def store(self, st, p, v, ins=None):
        if p.op == "px":
            b = p.a[0]
            for k in [k for k in st.mem if k[0] is b]:
                del st.mem[k]
            st.epoch[b] = st.epoch.get(b, 0) + 1
            st.mem[(b, p)] = v
            if self.log_stores:
                st.facts[mk("bool", "stored", p, v)] = True
            return
        b, o = split(p)
        for k in [k for k in st.mem if k[0] is b and isinstance(k[1], T)]:
            del st.mem[k]
        st.mem[(b, o)] = v

    def havoc(self, st, b):
        for k in [k for k in st.mem if k[0] is b]:
            del st.mem[k]
        st.zero.pop(b, None)
        st.epoch[b] = st.epoch.get(b, 0) + 1

    # -------------------------------------------------------------- arithmetic
    def add(self, a, b, w=64):
        if a.op == "i" and b.op == "i":
            return I(wrap(a.a[0] + b.a[0], w))
        if a.op == "i":
            a, b = b, a
        if b.op == "i":
            if b.a[0] == 0:
                return a
            if a.op == "add" and a.a[1].op == "i":
                c = wrap(a.a[1].a[0] + b.a[0], w)
                return a.a[0] if c == 0 else mk("add", a.a[0], I(c))
            if a.op in ("p", "G", "A", "H"):
                return ptradd(a, b.a[0])
            return mk("add", a, b)
        if a.op == "add" and a.a[1].op == "i":
            return self.add(self.add(a.a[0], b, w), a.a[1], w)
        if b.op == "add" and b.a[1].op == "i":
            return self.add(self.add(a, b.a[0], w), b.a[1], w)
        if b.op == "neg":
            return self.sub(a, b.a[0], w)
        if a.op == "neg":
            return self.sub(b, a.a[0], w)
        if a.op == "sub" and a.a[1] is b:
            return a.a[0]
        if b.op == "sub" and b.a[1] is a:
            return b.a[0]
        if b < a:
            a, b = b, a
        return mk("add", a, b)

    def sub(self, a, b, w=64):
        if a is b:
            return ZERO
        if b.op == "i":
            return self.add(a, I(-b.a[0]), w)
        if a.op == "i" and a.a[0] == 0:
            if b.op == "sub":
                return mk("sub", b.a[1], b.a[0])
            return b.a[0] if b.op == "neg" else mk("neg", b)
        ba, oa = split(a)
        bb, ob = split(b)
        if ba is bb and ba.op != "i" and (a.op == "p" or b.op == "p"):
            return I(oa - ob)
        ca = cb = 0
        if a.op == "add" and a.a[1].op == "i":
            a, ca = a.a[0], a.a[1].a[0]
        if b.op == "add" and b.a[1].op == "i":
            b, cb = b.a[0], b.a[1].a[0]
        if a is b:
            return I(ca - cb)
        if b.op == "neg":
            r = self.add(a, b.a[0], w)
        elif a.op == "add" and a.a[0] is b:
            r = a.a[1]
        elif a.op == "add" and a.a[1] is b:
            r = a.a[0]
        elif a.op == "i":
            r = mk("sub", a, b)
        else:
            r = mk("sub", a, b)
        return self.add(r, I(ca - cb), w)

    def binop(self, op, a, b, w, st=None):
        if op == "add":
            return self.add(a, b, w)
        if op == "sub":
            return self.sub(a, b, w)
        ai, bi = a.op == "i", b.op == "i"
        if ai and bi:
            x, y = a.a[0], b.a[0]
            M = (1 << (w or 64)) - 1
            ux, uy = x & M, y & M
            try:
                r = {"mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: ux << uy if uy < 200 else 0, "lshr": lambda: ux >> uy, "ashr": lambda: x >> uy,
                     "udiv": lambda: ux // uy, "urem": lambda: ux % uy,
                     "sdiv": lambda: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
                     "srem": lambda: (abs(x) % abs(y)) * (-1 if x < 0 else 1)}[op]()
                return I(wrap(r, w))
            except (KeyError, ZeroDivisionError):
                return mk(op, a, b)
        if op in ("mul", "and", "or", "xor") and ai:
            a, b, ai, bi = b, a, bi, ai
        if bi:
            c = b.a[0]
            if op == "mul":
                if c == 0:
                    return ZERO
                if c == 1:
                    return a
                if a.op == "mul" and a.a[1].op == "i":
                    return self.binop("mul", a.a[0], I(a.a[1].a[0] * c), w)
                if a.op == "add" and a.a[1].op == "i":
                    return self.add(self.binop("mul", a.a[0], b, w), I(a.a[1].a[0] * c), w)
            elif op == "and":
                if c == 0:
                    return ZERO
                if c == -1:
                    return a
                if c == 1 and a.op in BOOL:
                    return a
                if a.op == "and" and a.a[1].op == "i":
                    return self.binop("and", a.a[0], I(a.a[1].a[0] & c), w)
            elif op == "or":
                if c == 0:
                    return a
                if c == 1 and a.op in BOOL:
                    return ONE
            elif op == "xor":
                if c == 0:
                    return a
                if (c == -1 or c == 1) and (w == 1 or a.op in BOOL):
                    return self.neg(a)
            elif op in ("shl", "lshr", "ashr"):
                if c == 0:
                    return a
                if op == "shl" and 0 < c < 63:
                    return self.binop("mul", a, I(1 << c), w)
                if op == "lshr" and c == 57 and a.op == "ld":
                    return mk("typ", a.a[0])
                if op in ("lshr", "ashr") and a.op == "mul" and a.a[1].op == "i" and a.a[1].a[0] == 1 << c:
                    return a.a[0]
                if op == "lshr":
                    return mk("udiv", a, I(1 << c)) if c < 63 else mk(op, a, b)
            elif op in ("udiv", "sdiv"):
                if c == 1:
                    return a
                if a.op == "mul" and a.a[1].op == "i" and c and a.a[1].a[0] % c == 0:
                    return self.binop("mul", a.a[0], I(a.a[1].a[0] // c), w)
            elif op in ("urem", "srem") and c == 1:
                return ZERO
        if w == 1 and op in ("and", "or"):
            if a is b:
                return a
            x, y = (a, b) if a < b else (b, a)
            return mk("andb" if op == "and" else "orb", x, y)
        if a is b and op in ("and", "or"):
            return a
        if op in ("mul", "and", "or", "xor") and not bi and b < a:
            a, b = b, a
        return mk(op, a, b)

    def neg(self, c):
        if c.op == "i":
            return I(0 if c.a[0] else 1)
        if c.op == "not":
            return c.a[0]
        return mk("not", c)

    def icmp(self, pred, a, b, st=None):
        if pred == "ne":
            return self.neg(self.icmp("eq", a, b, st))
        if pred in ("sgt", "ugt"):
            return self.icmp(pred[0] + "lt", b, a, st)
        if pred in ("sge", "uge"):
            return self.neg(self.icmp(pred[0] + "lt", a, b, st))
        if pred in ("sle", "ule"):
            return self.neg(self.icmp(pred[0] + "lt", b, a, st))
        if a.op == "i" and b.op == "i":
            x, y = a.a[0], b.a[0]
            if pred == "eq":
                return I(x == y)
            if pred == "slt":
                return I(x < y)
            return I((x & ((1 << 64) - 1)) < (y & ((1 << 64) - 1)))
        if a is b:
            return I(pred == "eq")
        if pred == "eq":
            if a.op == "vec" and (b is ZERO or b.op == "z") or b.op == "vec" and (a is ZERO or a.op == "z"):
                return ZERO             # a freshly built object against NULL or a PARI constant
            if a.op == "i" or (b.op != "i" and b < a):
                a, b = b, a
            if b.op == "i":
                c = b.a[0]
                if a.op in BOOL:
                    return a if c == 1 or (c == -1) else (self.neg(a) if c == 0 else ZERO)
                if a.op == "sgn" and c == 0:
                    return mk("zeq", a.a[0])
                if a.op == "sgn" and c in (1, -1):
                    l = mk("cmp", "slt", a, ZERO)
                    if c == -1:
                        return l
                    g = mk("cmp", "slt", ZERO, a)
                    return g
                if a.op == "add" and a.a[1].op == "i":
                    return self.icmp("eq", a.a[0], I(c - a.a[1].a[0]))
                if a.op == "neg":
                    return self.icmp("eq", a.a[0], I(-c))
                if a.op in ("G", "A", "H", "F") or (a.op in ("p", "px") and base_of(a).op in ("G", "A", "H")):
                    return ZERO if c == 0 else mk("cmp", "eq", a, b)
                if a.op == "ite":
                    x, y = self.icmp("eq", a.a[1], b), self.icmp("eq", a.a[2], b)
                    if x.op == "i" and y.op == "i":
                        if x.a[0] == y.a[0]:
                            return x
                        return a.a[0] if x.a[0] else self.neg(a.a[0])
            else:
                if a.op == "add" and a.a[1].op == "i" and b.op == "add" and b.a[1].op == "i":
                    return self.icmp("eq", a.a[0], self.add(b.a[0], I(b.a[1].a[0] - a.a[1].a[0])))
                ba, oa = split(a)
                bb, ob = split(b)
                if ba is bb and oa != ob:
                    return ZERO
                conc = ("G", "A", "H")
                if ba.op in conc and bb.op in conc and ba is not bb and a.op != "px" and b.op != "px":
                    return ZERO
                if a.op == "F" and b.op == "F":
                    return ZERO
            return mk("cmp", "eq", a, b)
        if pred == "slt":
            if a.op == "add" and a.a[1].op == "i" and b.op == "i":
                return self.icmp("slt", a.a[0], I(b.a[0] - a.a[1].a[0]))
            if b.op == "add" and b.a[1].op == "i" and a.op == "i":
                return self.icmp("slt", I(a.a[0] - b.a[1].a[0]), b.a[0])
            if a.op in BOOL and b.op == "i":
                return I(1) if b.a[0] > 1 else (self.neg(a) if b.a[0] == 1 else ZERO)
            if b.op in BOOL and a.op == "i":
                return I(1) if a.a[0] < 0 else (b if a.a[0] == 0 else ZERO)
            # canonical sign tests of ring values
            if a.op == "sgn" and b.op == "i":
                c = b.a[0]
                if c > 1:
                    return ONE
                if c == 1:  # sgn < 1  <=> not (0 < sgn)
                    return self.neg(mk("cmp", "slt", ZERO, a))
                if c <= -1:
                    return ZERO
            if b.op == "sgn" and a.op == "i":
                c = a.a[0]
                if c < -1:
                    return ONE
                if c == -1:
                    return self.neg(mk("cmp", "slt", b, ZERO))
                if c >= 1:
                    return ZERO
        if pred == "ult" and b.op == "i" and b.a[0] == 1:
            return self.icmp("eq", a, ZERO)
        if pred == "ult" and a.op == "i" and a.a[0] == 0:
            return self.neg(self.icmp("eq", b, ZERO))
        if pred == "ult" and b.op == "i" and b.a[0] == 0:
            return ZERO
        return mk("cmp", pred, a, b)

    # -------------------------------------------------------------- facts
    def rng(self, st, t, d=0):
        if t.op == "i":
            return (t.a[0], t.a[0])
        lo, hi = st.iv.get(t, FULL)
        if d > 6:
            return lo, hi
        if t.op in BOOL:
            lo, hi = max(lo, 0), min(hi, 1)
        elif t.op == "sgn":
            lo, hi = max(lo, -1), min(hi, 1)
            f = st.facts.get(mk("zeq", t.a[0]))
            if f is True:
                return (0, 0)
        elif t.op == "add" and t.a[1].op == "i":
            l, h = self.rng(st, t.a[0], d + 1)
            c = t.a[1].a[0]
            lo, hi = max(lo, l + c), min(hi, h + c)
        elif t.op == "and" and t.a[1].op == "i" and t.a[1].a[0] >= 0:
            lo, hi = max(lo, 0), min(hi, t.a[1].a[0])
        elif t.op == "typ":
            lo = max(lo, 0)
        elif t.op == "neg":
            l, h = self.rng(st, t.a[0], d + 1)
            lo, hi = max(lo, -h), min(hi, -l)
        elif t.op == "mul" and t.a[1].op == "i" and t.a[1].a[0] > 0:
            l, h = self.rng(st, t.a[0], d + 1)
            c = t.a[1].a[0]
            if l > -INF:
                lo = max(lo, l * c)
            if h < INF:
                hi = min(hi, h * c)
        elif t.op == "urem" and t.a[1].op == "i" and t.a[1].a[0] > 0:
            lo, hi = max(lo, 0), min(hi, t.a[1].a[0] - 1)
        elif t.op == "ite":
            l1, h1 = self.rng(st, t.a[1], d + 1)
            l2, h2 = self.rng(st, t.a[2], d + 1)
            lo, hi = max(lo, min(l1, l2)), min(hi, max(h1, h2))
        elif t.op in ("G", "A", "H", "F") or (t.op in ("p", "px") and base_of(t).op in ("G", "A", "H")):
            lo = max(lo, 1)
        return lo, hi

    def decide(self, st, c):
        """True / False / None"""
        if c.op == "i":
            return c.a[0] != 0
        if c.op == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        f = st.facts.get(c)
        if f is not None:
            return f
        if c.op == "andb":
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if c.op == "orb":
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if x or y:
                return True
            return False if x is False and y is False else None
        if c.op == "cmp":
            p, a, b = c.a
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if p == "eq":
                if ha < lb or hb < la:
                    return False
                if la == ha == lb == hb:
                    return True
                if b.op == "i" and b.a[0] in st.ne.get(a, ()):
                    return False
                if a.op == "and" and b.op == "i" and a.a[1].op == "i":
                    m = a.a[1].a[0]
                    l, h = self.rng(st, a.a[0])
                    if l == h:
                        return (l & m) == b.a[0]
            elif p == "slt":
                if ha < lb:
                    return True
                if la >= hb:
                    return False
                # a < b  false if known b < a or equal
                if st.facts.get(mk("cmp", "slt", b, a)) is True:
                    return False
                if st.facts.get(mk("cmp", "eq", *((a, b) if b.op == "i" or (a.op != "i" and a < b) else (b, a)))) is True:
                    return False
                if (a.op == "sgn" or b.op == "sgn"):
                    s = a if a.op == "sgn" else b
                    if s.op == "sgn" and st.facts.get(mk("zeq", s.a[0])) is True:
                        return (0 < b.a[0]) if (a is s and b.op == "i") else ((a.a[0] < 0) if a.op == "i" else None)
            elif p == "ult":
                if la >= 0 and lb >= 0:
                    if ha < lb:
                        return True
                    if la >= hb:
                        return False
            if self.linear_decide and p != "eq" and (p == "slt" or la >= 0 and lb >= 0):
                d = self.lin(b)
                self.lin(a, -1, d)
                if self.ge0(st, {k: -v for k, v in d.items()}, 1):
                    return False
                d[None] = d.get(None, 0) - 1
                if self.ge0(st, d, 1):
                    return True
            return None
        if c.op == "zeq":
            s = mk("sgn", c.a[0])
            if st.facts.get(mk("cmp", "slt", s, ZERO)) or st.facts.get(mk("cmp", "slt", ZERO, s)):
                return False
            d = c.a[0]
            if d.op == "z":
                return d.a[0] == 0
            if d.op == "P":
                r = self.zdecide(st, d)
                if r is not None:
                    return r
            return None
        # plain integer used as a condition
        return None

    def zdecide(self, st, d):
        return None

    def _meet(self, st, t, lo, hi):
        if t.op == "i":
            return lo <= t.a[0] <= hi
        l, h = self.rng(st, t)
        nl, nh = max(l, lo), min(h, hi)
        ne = st.ne.get(t)
        if ne:
            while nl in ne:
                nl += 1
            while nh in ne:
                nh -= 1
        if nl > nh:
            return False
        if (nl, nh) != st.iv.get(t, FULL):
            st.iv[t] = (nl, nh)
        if t.op == "add" and t.a[1].op == "i":
            c = t.a[1].a[0]
            return self._meet(st, t.a[0], nl - c if nl > -INF else -INF, nh - c if nh < INF else INF)
        return True

    def assume(self, st, c, val):
        """Add the fact; False when it contradicts the state."""
        r = self.decide(st, c)
        if r is not None:
            return r == val
        while c.op == "not":
            c, val = c.a[0], not val
        st.facts[c] = val
        if c.op == "andb" and val:
            return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
        if c.op == "orb" and not val:
            return self.assume(st, c.a[0], False) and self.assume(st, c.a[1], False)
        if c.op == "andb" or c.op == "orb":
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                r = self.decide(st, x)
                if r is not None and r == (c.op == "andb"):
                    return self.assume(st, y, val)
        if c.op == "cmp":
            p, a, b = c.a
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if p == "eq":
                if val:
                    if not (self._meet(st, a, lb, hb) and self._meet(st, b, la, ha)):
                        return False
                elif b.op == "i":
                    st.ne[a] = st.ne.get(a, frozenset()) | {b.a[0]}
                    if not self._meet(st, a, -INF, INF):
                        return False
                    l, h = self.rng(st, a)
                    if l == h == b.a[0]:
                        return False
            elif p == "slt":
                if val:
                    return self._meet(st, a, -INF, hb - 1 if hb < INF else INF) and self._meet(st, b, la + 1 if la > -INF else -INF, INF)
                return self._meet(st, a, lb, INF) and self._meet(st, b, -INF, ha)
            elif p == "ult":
                if val and lb >= 0 and hb < INF:
                    return self._meet(st, a, 0, hb - 1)
                if val and la >= 0:
                    return self._meet(st, b, la + 1, INF) if lb >= 0 else True
                if not val and la >= 0 and lb >= 0:
                    return self._meet(st, a, lb, INF) and self._meet(st, b, -INF, ha)
        if c.op == "zeq" and val:
            pass
        return True

    # -------------------------------------------------------------- linear forms
    def lin(self, t, k=1, acc=None):
        """integer term -> {atom: coefficient, None: constant}"""
        acc = {} if acc is None else acc
        if t.op == "i":
            acc[None] = acc.get(None, 0) + k * t.a[0]
        elif t.op == "add":
            self.lin(t.a[0], k, acc)
            self.lin(t.a[1], k, acc)
        elif t.op == "sub":
            self.lin(t.a[0], k, acc)
            self.lin(t.a[1], -k, acc)
        elif t.op == "neg":
            self.lin(t.a[0], -k, acc)
        elif t.op == "mul" and t.a[1].op == "i":
            self.lin(t.a[0], k * t.a[1].a[0], acc)
        elif t.op == "p":
            self.lin(t.a[0], k, acc)
            acc[None] = acc.get(None, 0) + k * t.a[1]
        elif t.op == "px":
            self.lin(t.a[0], k, acc)
            acc[None] = acc.get(None, 0) + k * t.a[1]
            f = t.a[2].a
            for x, sc in zip(f[0::2], f[1::2]):
                self.lin(x, k * sc, acc)
        else:
            acc[t] = acc.get(t, 0) + k
        return acc

    def ge0(self, st, form, depth=0):
        """do the facts entail  sum >= 0 ? (constants, ranges, or up to depth+1 linear facts plus a constant)"""
        form = {a: c for a, c in form.items() if c}
        c0 = form.pop(None, 0)
        if not form:
            return c0 >= 0
        lo = c0
        for a, c in form.items():
            l, h = self.rng(st, a)
            b = l if c > 0 else h
            if abs(b) >= INF:
                lo = None
                break
            lo += c * b
        if lo is not None and lo >= 0:
            return True
        g = math.gcd(*form.values())
        if g > 1:
            form = {a: c // g for a, c in form.items()}
            c0 //= g
        for f, v in st.facts.items():
            if f.op != "cmp":
                continue
            p, x, y = f.a
            d = self.lin(y)
            self.lin(x, -1, d)       # y - x
            if p in ("slt", "ult"):
                if v:
                    d[None] = d.get(None, 0) - 1   # y - x - 1 >= 0
                    cands = [d]
                else:
                    cands = [{a: -c for a, c in d.items()}]  # x - y >= 0
            elif p == "eq" and v:
                cands = [d, {a: -c for a, c in d.items()}]
            else:
                continue
            for e in cands:
                e = {a: c for a, c in e.items() if c}
                e0 = e.pop(None, 0)
                g = math.gcd(*e.values()) if e else 1
                if g > 1:
                    e = {a: c // g for a, c in e.items()}
                    e0 //= g
                if e == form and c0 >= e0:
                    return True
                if depth and e and any(form.get(a, 0) * c > 0 for a, c in e.items()):
                    r = dict(form)
                    for a, c in e.items():
                        r[a] = r.get(a, 0) - c
                    r = {a: c for a, c in r.items() if c}
                    if len(r) < len(form) + 1:
                        r[None] = c0 - e0
                        if self.ge0(st, r, depth - 1):
                            return True
        return False

    # -------------------------------------------------------------- execution
    def operand(self, o, env, args):
        k = o[0]
        if k == "v":
            v = env.get(o[1])
            return v if v is not None else mk("undef")
        if k == "a":
            return args[o[1]]
        if k in ("asm", "md", "?"):
            return mk("undef")
        return self.const(o)

    def width(self, ty):
        if ty and ty[0] == "i" and ty[1:].isdigit():
            return int(ty[1:])
        return 64

    def run(self, fn, args, st, ctx=()):
        """Analyse fn from abstract state st; list of Outcomes (return / exit / longjmp)."""
        if isinstance(fn, str):
            f = self.m.fn(fn)
            if f is None:
                raise AnalysisError("function %s is missing" % fn)
            fn = f
        if len(ctx) > self.maxdepth:
            raise AnalysisError("call depth limit at %s" % fn.name)
        self.analysed.add(fn.name)
        args = list(args)
        if fn.vararg:
            self.vaargs[(fn.name, ctx)] = args[len(fn.args):]
        while len(args) < len(fn.args):
            args.append(mk("sym", "%s.%s" % (fn.dname, fn.args[len(args)][0])))
        fn.loops()
        outs = []
        seen = set()
        work = [] if not self.blockjoin else JoinWork(self, fn, ctx)
        work.append((0, -1, {}, st, ()))
        while work:
            item = work.pop()
            self.block(fn, args, item, work, outs, ctx)
            if len(outs) > self.max_paths or self.steps > self.max_steps:
                raise AnalysisError("path limit in %s (%d outcomes, %d steps)" % (fn.name, len(outs), self.steps))
        if self.merge and len(outs) > 1 and self.merge(fn):
            outs = self.join(outs, (fn.name, "join", ctx))
        # merge identical outcomes
        if len(outs) > 1:
            ded = {}
            for o in outs:
                k = (o.kind, o.val.id if o.val is not None else None) + o.st.key()
                if k not in ded:
                    ded[k] = o
            outs = list(ded.values())
        return outs

    def block(self, fn, args, item, work, outs, ctx):
        bb, prev, env, st, loops = item
        b = fn.blocks[bb]
        k = 0
        # phis were evaluated on the edge
        while k < len(b) and b[k].op in ("phi", "dbg"):
            k += 1
        self.cont(fn, args, bb, k, env, st, loops, work, outs, ctx)

    def cont(self, fn, args, bb, k, env, st, loops, work, outs, ctx):
        b = fn.blocks[bb]
        while k < len(b):
            i = b[k]
            k += 1
            self.steps += 1
            op = i.op
            if op in ("dbg", "phi"):
                continue
            V = lambda n: self.operand(i.o[n], env, args)
            if op == "load":
                p = V(0)
                if self.on_load:
                    self.on_load(self, st, p, i)
                v = self.load(st, p, i.d["sz"], i)
                l, h = st.iv.get(v, (0, 1))
                if l == h and v.op != "i" and v in st.iv:
                    v = I(l)
                env[i.id] = v
            elif op == "store":
                v, p = V(0), V(1)
                if self.on_store and self.on_store(self, st, p, v, i) is False:
                    continue
                self.store(st, p, v, i)
            elif op == "getelementptr":
                base = V(0)
                if i.d.get("bad"):
                    env[i.id] = mk("gep?", base, i.id)
                else:
                    idx = []
                    for o, sc in i.d["idx"]:
                        t = self.operand(o, env, args)
                        if t.op != "i":
                            l, h = st.iv.get(t, (0, 1))
                            if l == h and t in st.iv:
                                t = I(l)
                        idx.append((t, sc))
                    env[i.id] = ptridx(base, idx, i.d["off"])
            elif op == "alloca":
                env[i.id] = mk("A", self.uid(fn, ctx, loops, i, False))
            elif op == "icmp":
                a, c = V(0), V(1)
                env[i.id] = self.icmp(i.d["pred"], a, c, st)
            elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                a, c = V(0), V(1)
                a, c = self.conc(st, a), self.conc(st, c)
                env[i.id] = self.binop(op, a, c, self.width(i.ty), st)
            elif op in ("zext", "sext", "trunc", "bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
                v = V(0)
                if v.op == "i":
                    w = self.width(i.ty)
                    if op == "zext":
                        sw = self.width(i.d.get("sty", "i64"))
                        v = I(v.a[0] & ((1 << sw) - 1)) if sw < 64 else v
                    elif op == "trunc":
                        v = I(wrap(v.a[0], w)) if w > 1 else I(v.a[0] & 1)
                elif v.op == "bv":
                    v = self.cast(op, v, self.width(i.ty), self.width(i.d.get("sty", "i64")))
                elif op == "trunc" and i.ty == "i1" and v.op not in BOOL:
                    v = self.neg(self.icmp("eq", v, ZERO))
                env[i.id] = v
            elif op == "select":
                c = V(0)
                d = self.decide(st, c)
                if d is None:
                    s2 = st.copy()
                    if self.assume(s2, c, False):
                        e2 = dict(env)
                        e2[i.id] = V(2)
                        self.fork_cont(fn, args, bb, k, e2, s2, loops, work, outs, ctx)
                    if not self.assume(st, c, True):
                        return
                    env[i.id] = V(1)
                else:
                    env[i.id] = V(1) if d else V(2)
            elif op == "call":
                res = self.call_ins(fn, i, args, env, st, loops, ctx)
                live = []
                for o in res:
                    if o.kind == "ret":
                        live.append(o)
                    else:
                        if o.ins is None:
                            o.ins = i
                        outs.append(o)
                if not live:
                    return
                for o in live[1:]:
                    e2 = dict(env)
                    if o.val is not None:
                        e2[i.id] = o.val
                    self.fork_cont(fn, args, bb, k, e2, o.st, loops, work, outs, ctx)
                o = live[0]
                st = o.st
                if o.val is not None:
                    env[i.id] = o.val
            elif op == "br":
                s = i.d["succ"]
                if len(s) == 1:
                    self.edge(fn, args, bb, s[0], env, st, loops, work, outs, ctx)
                    return
                c = self.conc(st, V(0))
                d = self.decide(st, c)
                if self.on_branch:
                    self.on_branch(self, st, c, i, d)
                if d is not None:
                    self.edge(fn, args, bb, s[0] if d else s[1], env, st, loops, work, outs, ctx)
                    return
                self.undecided += 1
                for le, _t, _l in loops:
                    le.undec = True
                s2 = st.copy()
                if self.assume(s2, c, False):
                    s2.note(i, "not (%s)" % pretty(c) if self.trace_branches else "")
                    self.edge(fn, args, bb, s[1], dict(env), s2, loops, work, outs, ctx)
                if self.assume(st, c, True):
                    st.note(i, "%s" % pretty(c) if self.trace_branches else "")
                    self.edge(fn, args, bb, s[0], env, st, loops, work, outs, ctx)
                return
            elif op == "switch":
                c = self.conc(st, V(0))
                groups = {}
                for v, t in i.d["cases"]:
                    groups.setdefault(t, []).append(v)
                if c.op == "i":
                    t = i.d["def"]
                    for v, tt in i.d["cases"]:
                        if v == c.a[0]:
                            t = tt
                    self.edge(fn, args, bb, t, env, st, loops, work, outs, ctx)
                    return
                sd = st.copy()
                ok = True
                for v, t in i.d["cases"]:
                    s2 = st.copy()
                    if self.assume(s2, self.icmp("eq", c, I(v)), True):
                        s2.note(i, "%s == %d" % (pretty(c), v))
                        self.edge(fn, args, bb, t, dict(env), s2, loops, work, outs, ctx)
                    if ok and not self.assume(sd, self.icmp("eq", c, I(v)), False):
                        ok = False
                if ok:
                    sd.note(i, "%s: default" % pretty(c))
                    self.edge(fn, args, bb, i.d["def"], dict(env), sd, loops, work, outs, ctx)
                return
            elif op == "ret":
                outs.append(Outcome("ret", self.conc(st, V(0)) if i.o else None, st, i))
                return
            elif op == "unreachable":
                return
            elif op == "extractvalue":
                v = V(0)
                env[i.id] = mk("xv", v, str(i.d["ix"])) if v.op != "agg" else v.a[i.d["ix"][0]]
            elif op == "insertvalue":
                env[i.id] = mk("iv", V(0), V(1), str(i.d["ix"]))
            elif op in ("fmul", "fdiv", "fadd", "fsub", "uitofp", "sitofp", "fpext", "fptrunc", "fptosi", "fptoui", "fcmp", "fneg"):
                env[i.id] = mk(op, *[self.operand(o, env, args) for o in i.o])
            else:
                raise AnalysisError("unsupported instruction %s at %s" % (op, i.loc()))
        raise AnalysisError("fell off block in " + fn.name)

    def fork_cont(self, fn, args, bb, k, env, st, loops, work, outs, ctx):
        self.cont(fn, args, bb, k, env, st, loops, work, outs, ctx)

    def conc(self, st, t):
        if t.op != "i":
            v = st.iv.get(t)
            if v is not None and v[0] == v[1]:
                return I(v[0])
            if t.op in BOOL:
                d = self.decide(st, t)
                if d is not None:
                    return I(1 if d else 0)
        return t

    def uid(self, fn, ctx, loops, i, iters=True):
        return (fn.name, i.id, ctx, tuple(l[1] for l in loops))

    # -------------------------------------------------------------- control flow edges and loops
    def phis(self, fn, args, src, dst, env):
        b = fn.blocks[dst]
        vals = {}
        for i in b:
            if i.op == "dbg":
                continue
            if i.op != "phi":
                break
            for o, pb in i.o:
                if pb == src:
                    vals[i.id] = self.operand(o, env, args)
        return vals

    def edge(self, fn, args, src, dst, env, st, loops, work, outs, ctx):
        L = fn._loops
        while loops and dst not in L[loops[-1][0].header]:
            loops = loops[:-1]
        ph = self.phis(fn, args, src, dst, env)
        if dst in L:
            if loops and loops[-1][0].header == dst:
                self.backedge(fn, args, ph, env, st, loops, work, ctx)
                return
            le = LoopEntry(dst, dict(env), ph, st.copy(), loops, (fn.name, dst, ctx, tuple(l[1] for l in loops)))
            self.loopcount += 1
            env = dict(env)
            env.update(ph)
            if self.loop_peel:
                work.append((dst, src, env, st, loops + ((le, 0, None),)))
            else:
                self.launch(le, st.prop, work, st, ph)
            return
        env.update(ph)
        work.append((dst, src, env, st, loops))

    def backedge(self, fn, args, ph, env, st, loops, work, ctx):
        le, tag, launched = loops[-1]
        if self.on_backedge:
            self.on_backedge(self, le, st, ph, tag)
        if self.unroll and launched is None and (self.force_unroll or not le.undec) and tag < (self.unroll if le.undec or not self.unroll_decided else self.unroll_decided):
            l2 = LoopEntry(le.header, dict(env), ph, st.copy(), le.outer, le.uid)
            env = dict(env)
            env.update(ph)
            work.append((le.header, -1, env, st, le.outer + ((l2, tag + 1, None),)))
            return
        basemem = launched[0] if launched else le.st.mem
        basephi = launched[1] if launched else le.phi
        baseep = launched[2] if launched else le.st.epoch
        basez = launched[3] if launched else le.st.zero
        changed = False
        for pid, v in ph.items():
            old = basephi.get(pid)
            if v is old:
                continue
            if pid not in le.wphi:
                le.wphi.add(pid)
                changed = True
            self.induct(le, ("phi", pid), le.phi.get(pid), v, old, tag, st)
        for pid, v in ph.items():
            if pid in le.wphi:
                self.linear(le, ("phi", pid), le.phi.get(pid), v, basephi.get(pid), tag)
        self.functional(le, ph, tag)
        for key in set(st.mem) | set(basemem):
            v, old = st.mem.get(key), basemem.get(key)
            if v is old:
                continue
            if key[0].op in ("A", "H") and self.fresh_in_loop(key[0], le):
                continue
            if key not in le.wmem:
                le.wmem.add(key)
                changed = True
            if v is not None:
                self.induct(le, ("mem", key), le.st.mem.get(key), v, old, tag, st)
        for key in le.wmem:
            self.linear(le, ("mem", key), le.st.mem.get(key), st.mem.get(key), basemem.get(key), tag)
        for b_ in st.epoch:
            if st.epoch[b_] != baseep.get(b_, 0) and b_ not in le.wep:
                le.wep.add(b_)
                changed = True
        for b_ in basez:
            if st.zero.get(b_) != basez[b_] and b_ not in le.wzero:
                le.wzero.add(b_)
                changed = True
        if self.relghosts:
            self.relcheck(le, st, ph)
        if le.indchanged:
            changed = True
            le.indchanged = False
        newprop = st.prop not in le.props
        if newprop:
            le.props.append(st.prop)
            if len(le.props) > 64:
                raise AnalysisError("property automaton does not converge at loop in %s" % fn.name)
        if changed:
            le.version += 1
            for p in list(le.props):
                self.launch(le, p, work, st, ph)
        elif newprop or le.version == 0:
            if le.version == 0:
                le.version = 1
            self.launch(le, st.prop, work, st, ph)

    def fresh_in_loop(self, b, le):
        """object allocated inside the loop body (its identity is tied to the iteration)"""
        u = b.a[0]
        # uid = (fn, ins, ctx, itertags); inside the loop iff the iteration prefix strictly extends the loop's
        f, d, ctx, tags = le.uid
        x = u
        while isinstance(x, tuple) and len(x) == 4:
            if x[0] == f and x[2] == ctx and len(x[3]) > len(tags) and x[3][:len(tags)] == tags:
                return True
            x = x[2]
            if isinstance(x, tuple) and len(x) == 1:
                x = x[0]
        return False

    def induct(self, le, key, init, new, old, tag, st):
        """monotone integer induction: remembers a lower (or upper) bound that every iteration must re-establish"""
        cur = le.ind.get(key)
        if cur is False:
            return
        if tag == 0:
            if init is not None and init.op == "i" and new.op == "i" and new.a[0] != init.a[0]:
                d = 1 if new.a[0] > init.a[0] else -1
                if cur is None:
                    le.ind[key] = (d, new.a[0])
                    le.indchanged = True
                elif cur[0] != d:
                    le.ind[key] = False
                    le.indchanged = True
                else:
                    b = min(cur[1], new.a[0]) if d > 0 else max(cur[1], new.a[0])
                    if b != cur[1]:
                        le.ind[key] = (d, b)
                        le.indchanged = True
            else:
                le.ind[key] = False
                le.indchanged = cur is not None
        else:
            if cur is None:
                le.ind[key] = False
                return
            d, b = cur
            lo, hi = self.rng(st, new)
            if d > 0 and lo >= b or d < 0 and hi <= b:
                return
            le.ind[key] = False
            le.indchanged = True

    def linear(self, le, key, init, new, old, tag):
        """constant-step induction variables share the loop's iteration counter: value = init + step * counter"""
        cur = le.lin.get(key)
        if cur is False:
            return
        step = None
        if init is not None and new is not None and old is not None and init.op not in ("z", "P", "vec", "undef"):
            d = self.sub(new, old)
            if d.op == "i":
                step = d.a[0]
        if step is None or (cur is not None and cur != step):
            le.lin[key] = False
            if cur is not None:
                le.indchanged = True
        elif cur is None:
            if tag == 0:
                le.lin[key] = step
                le.indchanged = True
            else:
                le.lin[key] = False

    def functional(self, le, ph, tag):
        """invariants  q = T(p)  between loop variables: hold initially and after every iteration"""
        X = mk("sym", "#X")
        for q in list(le.wphi):
            if le.lin.get(("phi", q)) or le.func.get(q) is False or q not in ph:
                continue
            cur = le.func.get(q)
            if tag != 0 or cur is not None:
                if cur is None:
                    le.func[q] = False
                    continue
                p, T_ = cur
                if subst(T_, lambda t: ph[p] if t is X else None) is not ph[q]:
                    le.func[q] = False
                    le.indchanged = True
                continue
            le.func[q] = False
            for p in le.wphi:
                if p == q or le.func.get(p) or p not in ph or isinstance(ph[p], T) is False:
                    continue
                a, b = le.phi.get(p), le.phi.get(q)
                if a is None or b is None or ph[p].op in ("undef",) or b.op not in ("call", "vec", "ld", "P") or ph[p] is ph[q]:
                    continue
                T_ = subst(ph[q], lambda t: X if t is ph[p] else None)
                if T_ is not ph[q] and subst(T_, lambda t: a if t is X else None) is b:
                    le.func[q] = (p, T_)
                    le.indchanged = True
                    break

    relghosts = ()
    linear_decide = False
    log_stores = False
    on_backedge = None

    def locval(self, st, phi, loc):
        return phi.get(loc[1]) if loc[0] == "phi" else st.mem.get(loc[1])

    def relcheck(self, le, st, ph):
        """candidate loop invariants  ghost >= location  (both integer locations): kept while entry and every back edge entail them"""
        locs = [("phi", p) for p in le.wphi] + [("mem", k) for k in le.wmem]
        gh = [("mem", split(g)) for g in self.relghosts]
        for x in locs:
            v0 = self.locval(le.st, le.phi, x)
            if v0 is None or v0.op in ("i", "undef", "z", "P", "G", "A", "H", "p") or le.rel.get(("init", x)) is False:
                continue
            if ("init", x) not in le.rel:
                le.indchanged = True
            v = self.locval(st, ph, x)
            ok = False
            if v is not None and v.op not in ("undef", "z", "P", "G", "A", "H", "p"):
                d = self.lin(v)
                self.lin(v0, -1, d)
                ok = self.ge0(st, d, 1)
            if ok != le.rel.get(("init", x)):
                le.rel[("init", x)] = ok
                le.indchanged = True
        for g in gh:
            for y in locs:
                for g_, x in ([(g, y), (y, g)] if self.releq else [(g, y)]):
                    self.relpair(le, st, ph, g_, x)

    releq = False

    def relpair(self, le, st, ph, g, x):
        if x == g or le.rel.get((g, x)) is False:
            return
        if (g, x) not in le.rel:
            ok = self.relholds(le.st, le.phi, g, x)
            le.rel[(g, x)] = ok
            if ok:
                le.indchanged = True
            else:
                return
        if not self.relholds(st, ph, g, x):
            le.rel[(g, x)] = False
            le.indchanged = True

    def relholds(self, st, phi, g, x):
        a, b = self.locval(st, phi, g), self.locval(st, phi, x)
        if a is None or b is None or a.op in ("undef", "z", "P") or b.op in ("undef", "z", "P", "G", "A", "H", "p"):
            return False
        d = self.lin(a)
        self.lin(b, -1, d)
        return self.ge0(st, d, 1)

    def launch(self, le, prop, work, st, ph):
        s = le.st.copy()
        s.prop = prop
        s.trace = (st.trace, "", "next iterations of the loop")
        env = dict(le.env)
        phi = dict(le.phi)
        kappa = mk("lp", le.uid, "iter")
        s.iv[kappa] = (1, INF)
        for pid in le.wphi:
            t = mk("lp", le.uid, pid)
            if le.lin.get(("phi", pid)):
                phi[pid] = self.add(le.phi[pid], self.binop("mul", kappa, I(le.lin[("phi", pid)]), 64))
                continue
            phi[pid] = t
            ind = le.ind.get(("phi", pid))
            if ind:
                s.iv[t] = (ind[1], INF) if ind[0] > 0 else (-INF, ind[1])
        for pid, fn_ in le.func.items():
            if fn_:
                phi[pid] = subst(fn_[1], lambda t: phi[fn_[0]] if t is mk("sym", "#X") else None)
        for key in le.wmem:
            t = mk("lp", le.uid, key[0], key[1])
            if le.lin.get(("mem", key)) and key in le.st.mem:
                s.mem[key] = self.add(le.st.mem[key], self.binop("mul", kappa, I(le.lin[("mem", key)]), 64))
                continue
            s.mem[key] = t
            ind = le.ind.get(("mem", key))
            if ind:
                s.iv[t] = (ind[1], INF) if ind[0] > 0 else (-INF, ind[1])
        for b in le.wep:
            s.epoch[b] = s.epoch.get(b, 0) + 1000
            for key in [k for k in s.mem if k[0] is b and isinstance(k[1], T)]:
                del s.mem[key]
            for key in [k for k in s.mem if k[0] is b]:
                del s.mem[key]
        for b in le.wzero:
            s.zero.pop(b, None)
            s.epoch[b] = s.epoch.get(b, 0) + 1000
        for (g, x), ok in le.rel.items():
            if ok:
                a, b = (self.locval(s, phi, x), self.locval(le.st, le.phi, x)) if g == "init" else (self.locval(s, phi, g), self.locval(s, phi, x))
                self.assume(s, self.icmp("slt", a, b), False)
        if self.on_launch:
            self.on_launch(self, le, s)
        env.update(phi)
        launched = (dict(s.mem), phi, dict(s.epoch), dict(s.zero))
        work.append((le.header, -1, env, s, le.outer + ((le, "*", launched),)))

    on_launch = None
    blockjoin = False
    blockkey = None
    unroll = 0
    unroll_decided = 0      # deeper limit for loops whose branches are all decided
    force_unroll = False    # unroll even loops whose body has undecided branches

    def joinstates(self, sts, uid):
        """one state for several that reach the same program point; memory that differs becomes a gated value whose
        alternatives remember under which facts they were stored"""
        b = sts[0].copy()
        b.facts = {f: v for f, v in b.facts.items() if all(s.facts.get(f) == v for s in sts)}
        iv = {}
        for t in b.iv:
            lo = min(s.iv.get(t, FULL)[0] for s in sts)
            hi = max(s.iv.get(t, FULL)[1] for s in sts)
            if (lo, hi) != FULL:
                iv[t] = (lo, hi)
        b.iv = iv
        b.ne = {t: frozenset.intersection(*[s.ne.get(t, frozenset()) for s in sts]) for t in b.ne}
        keys = set()
        for s in sts:
            keys |= set(s.mem)
        mem = {}
        for key in keys:
            vs = [s.mem.get(key) for s in sts]
            if all(v is vs[0] for v in vs):
                mem[key] = vs[0]
                continue
            if isinstance(key[1], T):
                continue
            vs = [v if v is not None else self.load(s, ptradd(key[0], key[1])) for v, s in zip(vs, sts)]
            if all(v is vs[0] for v in vs):
                mem[key] = vs[0]
                continue
            t = mk("alt", uid, key[0], key[1])
            self.alts[t] = [(dict(s.facts), dict(s.iv), dict(s.ne), v) for s, v in zip(sts, vs)]
            mem[key] = t
            rs = [self.rng(s, v) for s, v in zip(sts, vs)]
            lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
            if (lo, hi) != FULL:
                b.iv[t] = (lo, hi)
        b.mem = mem
        ep = {}
        for s in sts:
            for x, e in s.epoch.items():
                if any(t.epoch.get(x, 0) != e for t in sts):
                    ep[x] = 5000 + max(t.epoch.get(x, 0) for t in sts)
                else:
                    ep[x] = e
        b.epoch = ep
        z_ = {}
        for s in sts:
            for x, v in s.zero.items():
                if all(t.zero.get(x, v) == v for t in sts):
                    z_[x] = v
        b.zero = z_
        return b

    def expand(self, t, facts=None, iv=None, ne=None):
        """alternatives (facts, iv, ne, value) of a gated value; inconsistent combinations are dropped"""
        facts, iv, ne = dict(facts or {}), dict(iv or {}), dict(ne or {})
        if t.op != "alt" or t not in self.alts:
            return [(facts, iv, ne, t)]
        res = []
        for f, v_, n, x in self.alts[t]:
            f2, v2, n2 = dict(facts), dict(iv), dict(ne)
            ok = True
            for k, b in f.items():
                if f2.setdefault(k, b) != b:
                    ok = False
            for k, (lo, hi) in v_.items():
                l, h = v2.get(k, FULL)
                l, h = max(l, lo), min(h, hi)
                if l > h:
                    ok = False
                v2[k] = (l, h)
            for k, b in n.items():
                n2[k] = n2.get(k, frozenset()) | b
                l, h = v2.get(k, FULL)
                if l == h and l in n2[k]:
                    ok = False
            for k, (l, h) in v2.items():
                if l == h and l in n2.get(k, ()):
                    ok = False
            if ok:
                res += self.expand(x, f2, v2, n2)
        return res

    merge = None
    joinkey = None

    def join(self, outs, uid):
        """property simulation: outcomes with the same kind, constant result and automaton state become one state"""
        groups = {}
        for o in outs:
            v = o.val
            k = (o.kind, v.a[0] if v is not None and v.op == "i" else ("none" if v is None else "sym"), o.st.prop)
            if self.joinkey:
                k += (self.joinkey(o),)
            groups.setdefault(k, []).append(o)
        res = []
        for k, g in groups.items():
            if len(g) == 1:
                res.append(g[0])
                continue
            b = g[0].st.copy()
            sts = [o.st for o in g]
            b.facts = {f: v for f, v in b.facts.items() if all(s.facts.get(f) == v for s in sts)}
            iv = {}
            for t in b.iv:
                lo = min(s.iv.get(t, FULL)[0] for s in sts)
                hi = max(s.iv.get(t, FULL)[1] for s in sts)
                if (lo, hi) != FULL:
                    iv[t] = (lo, hi)
            b.iv = iv
            b.ne = {t: frozenset.intersection(*[s.ne.get(t, frozenset()) for s in sts]) for t in b.ne}
            mem = {}
            keys = set()
            for s in sts:
                keys |= set(s.mem)
            for key in keys:
                vs = [s.mem.get(key) for s in sts]
                if all(v is vs[0] for v in vs):
                    mem[key] = vs[0]
                elif key[0].op in ("A", "H") and any(v is None for v in vs):
                    w = [v for v in vs if v is not None]
                    mem[key] = w[0] if all(v is w[0] for v in w) and key[0].op == "A" else mk("join", uid, key[0], key[1])
                else:
                    mem[key] = mk("join", uid, key[0], key[1])
                    if all(v is not None for v in vs):
                        rs = [self.rng(s, v) for s, v in zip(sts, vs)]
                        lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
                        if (lo, hi) != FULL:
                            b.iv[mem[key]] = (lo, hi)
            b.mem = mem
            ep = {}
            for s in sts:
                for x, e in s.epoch.items():
                    if any(t.epoch.get(x, 0) != e for t in sts):
                        ep[x] = 5000 + max(t.epoch.get(x, 0) for t in sts)
                    else:
                        ep[x] = e
            b.epoch = ep
            b.zero = {x: z_ for x, z_ in b.zero.items() if all(s.zero.get(x) == z_ for s in sts) or x.op in ("H", "A") and all(s.zero.get(x, z_) == z_ for s in sts)}
            v = g[0].val
            if k[1] == "sym" and any(o.val is not v for o in g):
                v = mk("join", uid, "ret")
                rs = [self.rng(o.st, o.val) for o in g]
                lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
                if (lo, hi) != FULL:
                    b.iv[v] = (lo, hi)
                ne = frozenset.intersection(*[frozenset(o.st.ne.get(o.val, ())) | (frozenset((0,)) if self.rng(o.st, o.val)[0] > 0 else frozenset()) for o in g])
                if ne:
                    b.ne[v] = ne
            res.append(Outcome(g[0].kind, v, b, g[0].ins))
        return res

    # -------------------------------------------------------------- calls
    def call_ins(self, fn, i, args, env, st, loops, ctx):
        c = i.d["callee"]
        vals = [self.operand(o, env, args) for o in i.o]
        uid = self.uid(fn, ctx, loops, i)
        self.callsites.add((fn.name, i.id))
        if c[0] == "f":
            return self.call(c[1], vals, st, uid, i)
        if c[0] == "asm":
            return [Outcome("ret", mk("undef"), st)]
        f = self.conc(st, self.operand(c, env, args))
        if f.op == "F":
            return self.call(f.a[0], vals, st, uid, i)
        h = self.hooks.get("@indirect")
        if h:
            return h(self, f, vals, st, uid, i)
        return [Outcome("ret", mk("call", "@indirect", f, *vals, uid), st)]

    def call(self, name, vals, st, uid, i):
        f = self.m.fns.get(name)
        dn = f.dname if f else name
        if dn.startswith("llvm."):
            return self.intrinsic(dn, vals, st, uid, i)
        h = self.hooks.get(dn)
        if h:
            r = h(self, vals, st, uid, i)
            if r is not None:
                return r
        if f is not None and f.repo and dn not in self.opaque and dn not in self.models:
            return self.run(f, vals, st, (uid,))
        if dn in self.opaque and f is not None and f.repo:
            return [Outcome("ret", mk("call", dn, *[self.reify(st, v) for v in vals], uid), st)]
        m = self.models.get(dn)
        if m:
            r = m(self, vals, st, uid, i)
            if r is not None:
                if isinstance(r, T):
                    return [Outcome("ret", r, st)]
                return r
        if f is not None and f.noreturn or i.d.get("noret"):
            return [Outcome("exit", mk("call", dn, *vals), st)]
        self.unknown[dn] = self.unknown.get(dn, 0) + 1
        return [Outcome("ret", self.opaque_call(dn, vals, st, uid), st)]

    def opaque_call(self, dn, vals, st, uid=None, impure=False):
        """external function: a term over its (structural) arguments; out-parameters become projections of it"""
        outs = [v for v in vals if v.op in ("A", "p") and base_of(v).op == "A"]
        ins = [self.reify(st, v) for v in vals if not (v.op in ("A", "p") and base_of(v).op == "A")]
        if impure:
            t = mk("call", dn, *ins, uid)
        else:
            t = mk("call", dn, *ins)
        for k, v in enumerate(outs):
            self.havoc_at(st, v)
            self.store(st, v, mk("out", t, k))
        return t

    def havoc_at(self, st, v):
        b, o = split(v)
        for k in [k for k in st.mem if k[0] is b and (isinstance(k[1], T) or k[1] >= o)]:
            del st.mem[k]

    def reify(self, st, v, d=0):
        if v.op == "H" and len(v.a) > 1 and v.a[1] == "cgetg" and d < 8:
            n = v.a[2]
            if isinstance(n, int) and n < 2100:
                return mk("vec", v.a[3], *[self.reify(st, self.load(st, ptradd(v, 8 * k)), d + 1) for k in range(1, n)])
        return v

    def intrinsic(self, dn, vals, st, uid, i):
        if dn.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, vals[0], vals[1], vals[2])
            return [Outcome("ret", None, st)]
        if dn.startswith("llvm.memset"):
            self.memset(st, vals[0], vals[1], vals[2])
            return [Outcome("ret", None, st)]
        if dn.startswith("llvm.va_start"):
            # the variable arguments, all in the overflow area
            ex = self.vaargs.get((uid[0], uid[2]))
            if ex is not None:
                h = mk("H", uid, "va")
                for k, v in enumerate(ex):
                    st.mem[(h, 8 * k)] = v
                self.store(st, vals[0], I(48))
                self.store(st, ptradd(vals[0], 8), h)
            return [Outcome("ret", mk("undef"), st)]
        if dn.startswith("llvm.threadlocal"):
            return [Outcome("ret", vals[0], st)]
        if dn.startswith(("llvm.lifetime", "llvm.dbg", "llvm.va_", "llvm.stack", "llvm.assume")):
            return [Outcome("ret", mk("undef"), st)]
        if dn.startswith(("llvm.expect",)):
            return [Outcome("ret", vals[0], st)]
        return [Outcome("ret", mk("call", dn, *vals), st)]

    def memcpy(self, st, d, s, n):
        if n.op == "i" and d.op != "px" and s.op != "px":
            db, do = split(d)
            sb, so = split(s)
            cnt = n.a[0]
            offs = {k[1] - so for k in st.mem if k[0] is sb and not isinstance(k[1], T) and so <= k[1] < so + cnt}
            if sb.op == "G":
                g = self.m.globals.get(sb.a[0])
                if g and "init" in g:
                    offs |= {x[0] - so for x in g["init"] if so <= x[0] < so + cnt and x[2][0] != "s"}
            offs |= set(range(0, min(cnt, 1024), 8))
            vals = {o: self.load(st, ptradd(s, o)) for o in offs}
            for k in [k for k in st.mem if k[0] is db and (isinstance(k[1], T) or do <= k[1] < do + cnt)]:
                del st.mem[k]
            for o, v in vals.items():
                if v.op != "undef" or True:
                    st.mem[(db, do + o)] = v
            return
        b = base_of(d)
        self.havoc(st, b)
        st.mem[(b, mk("cpy", d))] = mk("bytes", s, n)

    def memset(self, st, d, v, n):
        b, o = split(d) if d.op != "px" else (base_of(d), None)
        if n.op == "i" and v.op == "i" and v.a[0] == 0 and o is not None:
            cnt = n.a[0]
            for k in [k for k in st.mem if k[0] is b and (isinstance(k[1], T) or o <= k[1] < o + cnt)]:
                del st.mem[k]
            zr = st.zero.get(b)
            if zr is not True:
                st.zero[b] = (zr or ()) + ((o, o + cnt),)
            return
        if v.op == "i" and v.a[0] == 0 and o == 0 and b.op == "H":
            for k in [k for k in st.mem if k[0] is b]:
                del st.mem[k]
            st.zero[b] = True
            return
        self.havoc(st, b)


class JoinWork:
    """worklist in reverse postorder that joins the states waiting at a block"""

    def __init__(self, ip, fn, ctx):
        self.ip, self.fn, self.ctx = ip, fn, ctx
        self.items = []
        self.groups = {}
        self.n = 0
        fn.loops()
        if not hasattr(fn, "_rpo"):
            seen, order = {0}, []
            st = [(0, iter(fn.succs(0)))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(fn.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            fn._rpo = {b: k for k, b in enumerate(order[::-1])}
            # values used in blocks reachable from each block
            uses = []
            for b in fn.blocks:
                u = set()
                for i in b:
                    ops = list(i.o or [])
                    if i.op == "phi":
                        ops = [x[0] for x in ops]
                    if i.op == "call":
                        ops.append(i.d["callee"])
                    if i.op == "getelementptr" and i.d.get("idx"):
                        ops += [x[0] for x in i.d["idx"]]
                    u |= {o[1] for o in ops if o and o[0] == "v"}
                uses.append(u)
            live = [set(u) for u in uses]
            ch = True
            while ch:
                ch = False
                for b in order:
                    for s in fn.succs(b):
                        if not live[s] <= live[b]:
                            live[b] |= live[s]
                            ch = True
            fn._live = live

    def __len__(self):
        return len(self.items)

    def append(self, it):
        lv = self.fn._live[it[0]]
        st = it[3]
        key = (self.fn._rpo[it[0]], frozenset((k, v.id) for k, v in it[2].items() if k in lv), st.prop,
               tuple((id(l[0]), l[1], id(l[2])) for l in it[4]), self.ip.blockkey(st) if self.ip.blockkey else None)
        g = self.groups.get(key)
        if g is None:
            self.groups[key] = [it]
        else:
            g.append(it)
        self.items.append(it)

    def pop(self):
        key = min(self.groups, key=lambda k: k[0])
        group = self.groups.pop(key)
        ids = {id(g) for g in group}
        self.items = [x for x in self.items if id(x) not in ids]
        if len(group) == 1:
            return group[0]
        self.n += 1
        g = group[0]
        st = self.ip.joinstates([x[3] for x in group], (self.fn.name, "bj", g[0], self.ctx, tuple(l[1] for l in g[4]), self.n))
        return (g[0], g[1], g[2], st, g[4])


class LoopEntry:
    __slots__ = ("header", "env", "phi", "st", "outer", "uid", "wphi", "wmem", "wep", "wzero", "props", "version", "ind", "indchanged", "lin", "rel", "undec", "func")

    def __init__(self, header, env, phi, st, outer, uid):
        self.header, self.env, self.phi, self.st, self.outer, self.uid = header, env, phi, st, outer, uid
        self.wphi, self.wmem, self.wep, self.wzero = set(), set(), set(), set()
        self.props = []
        self.version = 0
        self.ind = {}
        self.lin = {}
        self.rel = {}
        self.func = {}
        self.undec = False
        self.indchanged = False
