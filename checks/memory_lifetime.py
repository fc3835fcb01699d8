"""memory-lifetime: nothing a curve records, and nothing still in use, lies in memory that has been reclaimed.

Every function of the program that resets PARI's stack pointer, compacts the stack or frees clones is interpreted on arbitrary arguments with
a ghost stack: each PARI value created is an object on it, reading `avma` takes a mark, writing it back reclaims every object above the mark, the gerepile functions
reclaim all but the values they are given (which they copy), gunclone frees a clone.  On every path: no reclaimed object may be used once another one
was allocated over it (or be an operand of an allocating function), none may be recorded in what the function leaves behind when it succeeds (curve, point, seed, global
variables, returned value), gerepileupto may not be handed a value whose components were created before it, and gerepileall must be handed
as many addresses as it is told."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from absint import Interp, State, AnalysisError

HEADER = "/usr/include/x86_64-linux-gnu/pari/paridecl.h"
AVMA = mk("G", "avma")
#: accessors: the value returned is part of the argument
INNER = {"ell_get_a1", "ell_get_a2", "ell_get_a3", "ell_get_a4", "ell_get_a6", "ell_get_b2", "ell_get_b4", "ell_get_b6", "ell_get_b8", "ell_get_c4", "ell_get_c6",
         "ell_get_disc", "ell_get_j", "member_mod", "FF_p_i", "FF_to_FpXQ_i", "gel", "obj_check", "leading_coeff", "constant_coeff", "real_i", "imag_i"}
#: values kept in a clone inside the argument, or not on the stack
IMMORTAL = {"ellff_get_gens", "ellff_get_card", "ellff_get_group", "ellff_get_field", "ellff_get_a4a6", "obj_insert", "obj_insert_shallow", "default0", "gen_I",
            "pari_err_last", "pari_thread_start", "strtofunction", "name_var", "cgetc_"}
SHALLOW = {"mkintmod": 2, "mkvec": 1, "mkvec2": 2, "mkvec3": 3, "mkvec4": 4, "mkvec5": 5, "mkcol": 1, "mkcol2": 2, "mkcol3": 3, "mkfrac": 2, "mkcomplex": 2,
           "mkpolmod": 2, "mkmat": 1, "mkmat2": 2, "mkrfrac": 2, "mkfraccopy_": 0}
#: functions that return no value of PARI's but work on its stack
SCRATCH = {"isprime", "ispseudoprime", "BPSW_psp", "Fp_issquare", "Z_issquareall", "issquare", "issquareall", "isprimepower", "ispower", "issquarefree", "Z_issquarefree",
           "FF_issquare", "FF_issquareall", "dvdii", "kronecker", "hilbert", "ellissupersingular", "ellisoncurve", "oncurve", "ell_is_inf_", "isprincipal", "polisirreducible", "gisirreducible"}
REPILE = {"gerepilecopy", "gerepileupto", "gerepileuptoint", "gerepileuptoleaf"}


class Ghost:
    def __init__(self, m, gens):
        self.m, self.gens = m, gens
        self.found = {}
        self.first = set()

    def interp(self, opaque=()):
        ip = Interp(self.m)
        ip.trace_branches = False
        ip.max_steps = 400000
        ip.opaque = set(opaque)
        names = {f.dname for f in self.m.fns.values()} | self.gens
        for n in self.gens:
            if n in REPILE or n in INNER or n in IMMORTAL or n in SHALLOW or n in ("gclone", "cgetg", "gerepile"):
                continue
            ip.hooks[n] = self.fresh(n)
        for n in ("addii", "subii", "stoi", "utoi", "utoipos", "utoineg", "icopy", "cgeti", "cgetr", "addii", "subii", "negi", "absi", "addis", "subis", "gcopy", "leafcopy", "real2n",
                  "mulis", "muliu", "truedivii", "diviiexact", "divii", "remii", "modis", "gtovec", "itor", "sqri", "mulss", "mpadd", "mpsub", "mpmul", "mpneg"):
            ip.hooks[n] = self.fresh(n)
        for n, k in SHALLOW.items():
            ip.hooks[n] = self.shallow(n)
        for n in INNER:
            ip.hooks[n] = self.inner(n)
        for n in REPILE:
            ip.hooks[n] = self.repile(n)
        ip.hooks["gerepileall"] = self.repileall
        ip.hooks["gclone"] = self.clone
        ip.hooks["gerepile"] = self.slide
        ip.hooks["gunclone"] = ip.hooks["gunclone_deep"] = ip.hooks["guncloneNULL"] = self.unclone
        ip.hooks["set_avma"] = lambda ip, v, st, uid, i: (self.popto(st, v[0]), [Outcome("ret", mk("undef"), st)])[1]
        ip.hooks["cgetg"] = self.cgetg
        ip.on_load, ip.on_store = self.load, self.store
        ip.on_backedge = self.collect
        base = ip.call

        def call(name, vals, st, uid, i):
            f = self.m.fns.get(name)
            dn = f.dname if f else name
            if dn in opaque and dn not in ip.hooks and not bits_only(f):
                for k in [k for k in st.mem if k[0].op not in ("A", "gen") and k[0] is not AVMA]:
                    del st.mem[k]
            if not (f is not None and f.repo) and not dn.startswith("llvm.") and dn not in REPILE and dn != "gerepileall":
                for x in vals:
                    if x is not None:
                        self.use(st, x, i, dn, dn in self.gens or dn in SCRATCH)
                if dn in SCRATCH:
                    S, d, c, mu = st.prop
                    st.prop = (S, d, c | d, mu)
            return base(name, vals, st, uid, i)
        ip.call = call
        return ip

    # ------------------------------------------------------------ ghost stack
    @staticmethod
    def owner(t):
        for _ in range(60):
            if t.op == "gen" or t.op == "H" and len(t.a) > 1 and t.a[1] == "cgetg":
                return t
            if t.op in ("p", "px"):
                t = t.a[0]
            elif t.op == "ld":
                t = t.a[0]
            elif t.op == "inner":
                t = t.a[1]
            elif t.op == "lp":
                return mk("gen", "an earlier iteration", t)
            else:
                return None
        return None

    def push(self, st, tok):
        S, d, c, mu = st.prop
        if tok in S:
            mu |= {tok}
        else:
            d, c = d - {tok}, c - {tok}
            S += (tok,)
        st.prop = (S, d, c | d, mu)

    def popto(self, st, mark, keep=()):
        S, d, c, mu = st.prop
        if mark not in S:
            return ()
        k = S.index(mark)
        gone = [t for t in S[k + 1:] if t.op != "mark"]
        st.prop = (S[:k + 1], d | {t for t in gone if t not in mu}, c, mu)
        if gone and gone[0] not in mu:
            self.first.add(gone[0])             # lies where the next object will be put
        return gone

    def report(self, kind, i, msg):
        self.found.setdefault((kind, i if isinstance(i, str) else i.loc(), msg), None)

    def use(self, st, v, i, dn, alloc):
        o = self.owner(v)
        S, d, c, mu = st.prop
        if v.op == "ld" and v in c:
            self.report("use", i, "%s is given %s, which has been freed" % (dn, pretty(v)))
        if o is None:
            return
        if o in c or alloc and o in d and o in self.first:
            self.report("use", i, "%s is given %s, whose memory has been reclaimed" % (dn, self.show(o)))

    def show(self, o):
        if o.op == "gen":
            return "the result of %s" % o.a[0]
        return "a vector"

    # ------------------------------------------------------------ hooks
    def fresh(self, n):
        def h(ip, v, st, uid, i):
            if n in ("stoi", "utoi") and v[0].op == "i" and v[0].a[0] == 0:
                return [Outcome("ret", z(0), st)]
            t = mk("gen", n, uid)
            for x in v:                                   # out-parameters
                if x is not None and x.op in ("A", "p") and base_of(x).op == "A" and not (x.op == "A" and False):
                    o = mk("gen", n + "'s out-parameter", uid + (len(st.mem) * 0,))
                    if self.isptrptr(ip, st, x):
                        self.push(st, o)
                        ip.havoc_at(st, x)
                        ip.store(st, x, o)
            self.push(st, t)
            return [Outcome("ret", t, st)]
        return h

    def isptrptr(self, ip, st, x):
        return True

    def shallow(self, n):
        def h(ip, v, st, uid, i):
            t = mk("gen", n, uid)
            self.push(st, t)
            for k, x in enumerate(v):
                ip.store(st, ptradd(t, 8 * (k + 1)), x)
            return [Outcome("ret", t, st)]
        return h

    def inner(self, n):
        return lambda ip, v, st, uid, i: [Outcome("ret", mk("inner", n, v[0]), st)]

    def clone(self, ip, v, st, uid, i):
        t = mk("gen", "gclone", uid)
        S, d, c, mu = st.prop
        st.prop = (S, d - {t}, c - {t}, mu)
        return [Outcome("ret", t, st)]

    def unclone(self, ip, v, st, uid, i):
        o = v[0]
        if o.op == "gen" and o.a[0] == "gclone":
            S, d, c, mu = st.prop
            st.prop = (S, d | {o}, c | {o}, mu)
        elif o.op == "ld":
            S, d, c, mu = st.prop
            st.prop = (S, d, c | {o}, mu)
        return [Outcome("ret", mk("undef"), st)]

    def cgetg(self, ip, v, st, uid, i):
        r = ip.models["cgetg"](ip, v, st, uid, i) if "cgetg" in ip.models else None
        if isinstance(r, T) and self.owner(r) is r:
            self.push(st, r)
            return [Outcome("ret", r, st)]
        t = mk("gen", "cgetg", uid)
        self.push(st, t)
        return [Outcome("ret", t, st)]

    def parts(self, ip, st, t):
        return [(k, x) for k, x in st.mem.items() if k[0] is t]

    def repile(self, n):
        def h(ip, v, st, uid, i):
            mark, x = v[0], v[1]
            o = self.owner(x)
            S, d, c, mu = st.prop
            if o is not None and o in c:
                self.report("use", i, "%s keeps %s, whose memory has been reclaimed" % (n, self.show(o)))
            gone = self.popto(st, mark)
            if n == "gerepilecopy":
                for k, y in self.parts(ip, st, o) if o is not None and o is x else ():
                    q = self.owner(y)
                    if q is not None and q in c:
                        self.report("use", i, "%s keeps %s, whose memory has been reclaimed" % (n, self.show(q)))
            if n == "gerepileupto" and o is not None and o is x and o in gone:
                for k, y in self.parts(ip, st, o):
                    q = self.owner(y)
                    if q is not None and q in gone and q not in mu and gone.index(q) < gone.index(o):
                        self.report("shallow", i, "gerepileupto is given a value (%s) that contains %s, created before it" % (self.show(o), self.show(q)))
            if x.op == "z" or o is None and n != "gerepilecopy":
                return [Outcome("ret", x, st)]
            if n != "gerepilecopy" and o not in gone and o not in d:
                return [Outcome("ret", x, st)]
            t = mk("gen", n, uid)
            self.push(st, t)
            return [Outcome("ret", t, st)]
        return h

    def repileall(self, ip, v, st, uid, i):
        mark, n, ps = v[0], v[1], v[2:]
        if n.op == "i" and n.a[0] > len(ps):
            self.report("count", i, "gerepileall is told of %d values but given %d addresses" % (n.a[0], len(ps)))
        if n.op != "i":
            return [Outcome("ret", mk("undef"), st)]
        ps = ps[:n.a[0]]
        vals = [ip.load(st, p) for p in ps]
        S, d, c, mu = st.prop
        for x in vals:
            o = self.owner(x)
            if o is not None and o in c:
                self.report("use", i, "gerepileall keeps %s, whose memory has been reclaimed" % self.show(o))
        gone = self.popto(st, mark)
        for k, (p, x) in enumerate(zip(ps, vals)):
            if x is ZERO or x.op == "z":
                continue
            t = mk("gen", "gerepileall", uid, k)
            self.push(st, t)
            ip.store(st, p, t)
        return [Outcome("ret", mk("undef"), st)]

    def slide(self, ip, v, st, uid, i):
        """gerepile(top, bottom, x): what was created after `bottom` is kept"""
        S, d, c, mu = st.prop
        if v[0] in S and v[1] in S and S.index(v[0]) <= S.index(v[1]):
            kept = S[S.index(v[1]) + 1:]
            st.prop = (S[:S.index(v[1])], d, c, mu)
            self.popto(st, v[0])
            S, d, c, mu = st.prop
            st.prop = (S + tuple(x for x in kept if x.op != "mark"), d, c, mu)
        return [Outcome("ret", v[2], st)]

    def load(self, ip, st, p, i):
        if p is AVMA:
            S, d, c, mu = st.prop
            if S and S[-1].op == "mark":
                ip.store(st, AVMA, S[-1])
                return
            mark = mk("mark", *S[-1:])
            st.prop = (tuple(x for x in S if x is not mark) + (mark,), d, c, mu)
            ip.store(st, AVMA, mark)
            return
        o = self.owner(p)
        if o is not None and o in st.prop[2]:
            self.report("use", i, "%s is read although its memory has been reclaimed" % self.show(o))

    def store(self, ip, st, p, v, i):
        if p is AVMA:
            self.popto(st, v)

    # ------------------------------------------------------------ forget objects nothing refers to (so that loops converge)
    def refs(self, t, out, seen):
        work = [t]
        while work:
            t = work.pop()
            if not isinstance(t, T):
                if isinstance(t, tuple):
                    work += t
                continue
            if t in seen:
                continue
            seen.add(t)
            if t.op in ("gen", "mark") or t.op == "H":
                out.add(t)
                continue
            if t.op == "lp":
                out.add(self.owner(t))
            work += t.a

    def carry(self, le, st, ph, out):
        """what the loop's variables hold at the end of an iteration is known in the next one as the loop-carried value"""
        S, d, c, mu = st.prop
        S = list(S)
        for k, v in [((p,), v) for p, v in ph.items()] + list(st.mem.items()):
            if not isinstance(v, T) or k[0] is AVMA:
                continue
            o = self.owner(v)
            a = self.owner(mk("lp", le.uid, *k))
            if o is a:
                continue
            if a in S:
                S.remove(a)
            d, c, mu = d - {a}, c - {a}, mu - {a}
            if o is None:
                continue
            out.add(a)
            if o in S:
                S.insert(S.index(o) + 1, a)
            d |= {a} if o in d else set()
            c |= {a} if o in c else set()
            mu |= {a} if o in mu else set()
            if o in self.first:
                self.first.add(a)
        st.prop = (tuple(S), d, c, mu)

    def collect(self, ip, le, st, ph, tag):
        out, seen = set(), set()
        for v in list(ph.values()) + [v for v in le.env.values() if isinstance(v, T)] + list(st.mem.values()):
            if isinstance(v, T):
                self.refs(v, out, seen)
        l = le.outer
        while l:
            for v in l[-1][0].env.values():
                if isinstance(v, T):
                    self.refs(v, out, seen)
            l = l[:-1]
        self.scattered(ip, le, st)
        self.carry(le, st, ph, out)
        S, d, c, mu = st.prop
        st.prop = (tuple(x for x in S if x in out), d & out, c & out, mu & out)

    def scattered(self, ip, le, st):
        """an element recorded at the place the loop has just gone past is not written again"""
        for what, o in self.left(ip, st, None, lambda b, at: any(t.op == "lp" and t.a[0] is le.uid or t.op == "lp" and t.a[0] == le.uid for t in atoms(at))):
            self.report("left", self.cur, "%s is left in %s although its memory has been reclaimed" % (self.show(o), what))

    # ------------------------------------------------------------ what is left behind
    def left(self, ip, st, ret, only=None):
        S, d, c, mu = st.prop
        if not d:
            return
        by = {}
        for (b, o), v in st.mem.items():
            by.setdefault(b, []).append((o, v))
        seen, work = set(), []
        if ret is not None:
            work.append(("the returned value", ret))
        for b, l in by.items():
            if only:
                work += [(pretty(b), v) for o, v in l if b.op not in ("A", "lp") and only(b, o if isinstance(o, T) else b)]
                continue
            if b.op in ("A", "H", "gen") or b is AVMA:
                continue
            work += [(pretty(ptradd(b, o) if not isinstance(o, T) else o), v) for o, v in l]
        while work:
            what, v = work.pop()
            o = self.owner(v)
            if o is not None and o in d:
                yield what, o
                continue
            b = base_of(v)
            if b in seen:
                continue
            seen.add(b)
            if b.op in ("H", "gen"):
                work += [(what, x) for _, x in by.get(b, ())]


def gen_names(m):
    t = open(HEADER).read()
    ns = set(re.findall(r"^\s*(?:INLINE\s+|extern\s+)?(?:const\s+)?GEN\s+(\w+)\s*\(", t, re.M))
    # PARI's inline functions, and those it declares through macros
    ns |= {f.dname for f in m.fns.values() if f.dty and f.dty[0] == "GEN" and (f.file.startswith("..") or not f.repo)}
    return ns | {"stoi", "utoi", "utoipos", "utoineg", "addiu", "subiu", "muliu", "diviu", "addis", "subis", "mulis"}


def touches(m, f):
    for b in f.blocks:
        for i in (f.blocks[b] if isinstance(f.blocks, dict) else b):
            if any(o == ["g", "avma", 0] or list(o[:2]) == ["g", "avma"] for o in (i.o or ()) if isinstance(o, (list, tuple))):
                return True
            cl = i.d.get("callee")
            if cl and cl[0] == "f":
                g = m.fns.get(cl[1])
                dn = g.dname if g else cl[1]
                if dn in REPILE or dn in ("gerepileall", "gunclone", "gclone"):
                    return True
    return False


def bits_only(f):
    ok = ("bits_t", "char", "size_t", "long unsigned int", "unsigned char", "_Bool", "bool", "void", "int", "long int", "pari_ulong", "FILE")
    return f.dty and all(re.sub(r"[*]|const|volatile", "", x).strip() in ok for x in f.dty) and any("bits_t" in x for x in f.dty)


def analyse(m, gens, f, level):
    g = Ghost(m, gens)
    opq = {h.dname for h in m.repo_fns() if h is not f and (bits_only(h) or level > 1)}
    if level > 0:
        opq |= {h.dname for h in m.repo_fns() if h is not f and calls_indirect(h)}
    ip = g.interp(opq)
    for h in m.repo_fns():
        if h is f or not h.dty:
            continue
        if h.dty[0] == "GEN" and (level > 0 or any("bits_t" in x for x in h.dty)) and not any("**" in x for x in h.dty):
            ip.hooks[h.dname] = g.fresh(h.dname)
    ip.max_paths = 20000
    st = State()
    st.prop = ((), frozenset(), frozenset(), frozenset())
    g.cur = f.dname
    args = [mk("sym", "arg%d" % k) for k in range(len(f.dty) - 1)]
    for a in args:
        pass
    n = 0
    for o in ip.run(f, args, st):
        if o.kind != "ret":
            continue
        v = o.val
        if f.ret in ("i1", "i32", "i64") and v is not None:
            if not ip.assume(o.st, ip.icmp("sgt" if f.ret == "i32" else "ne", v, ZERO), True):
                continue
        n += 1
        for what, ob in g.left(ip, o.st, v if f.ret == "ptr" else None):
            g.found.setdefault(("left", f.dname, "%s is left in %s although its memory has been reclaimed" % (g.show(ob), what)), None)
    return g.found, n


def calls_indirect(f):
    for b in f.blocks:
        for i in (f.blocks[b] if isinstance(f.blocks, dict) else b):
            if i.op == "call" and i.d.get("callee") and i.d["callee"][0] not in ("f", "asm"):
                return True
    return False


def engine(c, m, gens):
    """the generation engine: going back to a stage must not reclaim what the stages below it recorded"""
    f = m.fn("exhaustive_gen_retry")
    if f is None:
        return
    g = Ghost(m, gens)
    ip = g.interp()
    g.cur = f.dname
    ip.max_steps, ip.max_paths = 40000000, 400000
    ip.unroll, ip.force_unroll = 14, True
    ip.on_backedge = None
    setup, curve, G0 = mk("sym", "setup"), mk("sym", "curve"), mk("G", "#stages")
    gens_t = mk("ld", ptradd(setup, m.off("exhaustive_t", "generators")))
    bad = {}
    calls = [0]

    def count(st):
        return ip.load(st, mk("G", "#n")).a[0]

    def indirect(ip, fn, vals, st, uid, i):
        if len(vals) == 3 and vals[2].op == "i" and fn.op == "ld" and any(x is gens_t for x in atoms(fn.a[0])):
            k, n = vals[2].a[0], count(st)
            calls[0] += 1
            if n >= lim or not 0 <= k < 9:
                return []
            for j in range(start, k):
                t = ip.load(st, ptradd(G0, 8 * j))
                if t.op == "gen" and t in st.prop[1]:
                    bad.setdefault("engine/reclaimed", (i.loc(), "stage %d is generated although what stage %d recorded has been reclaimed" % (k, j), st.path()))
            t = mk("gen", "stage %d" % k, n)
            g.push(st, t)
            ip.store(st, mk("G", "#n"), I(n + 1))
            out = []
            for r in [1, 0] + [-x for x in range(1, min(k - start, 3) + 1)]:
                s2 = st.copy()
                if r == 1:
                    ip.store(s2, ptradd(G0, 8 * k), t)
                out.append(Outcome("ret", I(r), s2))
            return out
        if len(vals) == 3 and vals[2].op == "i":
            k = vals[2].a[0]
            g.push(st, mk("gen", "check of stage %d" % k, count(st)))
            return [Outcome("ret", I(r), st.copy()) for r in [1] + [-x for x in range(0, min(k - start, 2) + 1)]]
        return [Outcome("ret", I(-1), st)]

    def jump(ip, vals, st, uid, i):
        s2 = st.copy()
        n = count(st)
        if n >= lim:
            return [Outcome("ret", ZERO, st)]
        g.push(s2, mk("gen", "work of the timed-out stage", n))
        ip.store(s2, mk("G", "#n"), I(n + 1))
        return [Outcome("ret", ZERO, st), Outcome("ret", ONE, s2)]
    ip.hooks["@indirect"] = indirect
    for n in ("_setjmp", "__sigsetjmp", "sigsetjmp", "setjmp"):
        ip.hooks[n] = jump
    nret = 0
    deep = c.tier == "thorough"
    for start, end, tmo, lim in ((0, 3, 0, 8 if deep else 6), (0, 4, 0, 7 if deep else 6), (2, 5, 0, 6), (1, 3, 1, 7 if deep else 5)):
        for stage_checked in range(start, end):
            st = State()
            st.prop = ((), frozenset(), frozenset(), frozenset())
            ip.store(st, mk("G", "#n"), ZERO)
            cfgo = mk("H", ("cfg", 0, (), ()), "calloc")
            ip.store(st, mk("G", "cfg"), cfgo)
            ip.store(st, ptradd(cfgo, m.off("config_t", "verbose")), ZERO)
            ip.store(st, ptradd(cfgo, m.off("config_t", "timeout")), I(tmo))
            ip.store(st, ptradd(setup, m.off("exhaustive_t", "gen_argss")), ZERO)
            ip.store(st, ptradd(setup, m.off("exhaustive_t", "check_argss")), ZERO)
            va, ck = (mk("H", ("engine", k, (), ()), "calloc") for k in (1, 2))
            ip.store(st, ptradd(setup, m.off("exhaustive_t", "validators")), va)
            for k in range(9):
                ip.store(st, ptradd(va, 8 * k), ck if k == stage_checked else ZERO)
            ip.store(st, ptradd(ck, m.off("check_t", "nchecks")), ONE)
            ip.store(st, ptradd(setup, m.off("exhaustive_t", "unrolls")), ZERO)
            try:
                outs = ip.run(f, [curve, setup, I(start), I(end), ZERO], st)
            except AnalysisError as e:
                c.cov["engine_undecided"] = str(e)[:200]
                return
            for o in outs:
                if o.kind != "ret" or o.val is ZERO:
                    continue
                nret += 1
                for j in range(start, end):
                    t = ip.load(o.st, ptradd(G0, 8 * j))
                    if t.op == "gen" and t in o.st.prop[1]:
                        bad.setdefault("engine/reclaimed-result", (f.dname, "the engine succeeds although what stage %d recorded has been reclaimed" % j, o.st.path()))
    for k in ("engine/reclaimed", "engine/reclaimed-result"):
        if k in bad:
            c.bad(k, *bad[k])
        elif calls[0] and nret:
            c.ok(k, "%d generator calls, %d successes" % (calls[0], nret))
    for (kind, where, msg) in g.found:
        c.bad("engine/%s" % kind, where, msg)
    c.cov.update(engine_generator_calls=calls[0], engine_successes=nret)


LIMIT = 60                # seconds for one function at one level of inlining
_J = []


def timed(fn, secs):
    def late(*a):
        raise AnalysisError("no answer after %d s" % secs)
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(secs)
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def job(k):
    m, gens, f, deep = _J[k]
    why = []
    t = time.time()
    for level in (0, 1, 2):
        try:
            found, n = timed(lambda: analyse(m, gens, f, level), LIMIT * (4 if deep else 1))
            return f.dname, list(found), n, level, why, time.time() - t
        except AnalysisError as e:
            why.append(str(e)[:120])
    return f.dname, None, 0, 3, why, time.time() - t


def rule(c):
    m = load_module()
    gens = gen_names(m)
    from callgraph import CallGraph
    live = CallGraph(m).reach([m.fn("main").name])
    eng = m.fn("exhaustive_gen_retry")
    fs = [f for f in m.fns.values() if f.repo and f is not eng and not f.file.startswith("..") and f.name in live and touches(m, f)]
    del _J[:]
    _J.extend((m, gens, f, c.tier == "thorough") for f in sorted(fs, key=lambda f: f.dname))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        rows = pool.map_async(job, range(len(_J)), chunksize=1)
        engine(c, m, gens)
        rows = rows.get()
    done, und, paths, levels = [], {}, 0, {}
    for dn, found, n, level, why, secs in rows:
        if os.environ.get("TIMES"):
            print("%-30s %.1f %s %s" % (dn, secs, level, "UNDECIDED" if found is None else n))
        if found is None:
            und[dn] = why
            continue
        levels[dn] = level
        paths += n
        done.append(dn)
        for (kind, where, msg) in found:
            c.bad("%s/%s" % (dn, kind), where, msg)
        if not found:
            c.ok(dn, "%d paths" % n)
    c.cov.update(functions=done, undecided=und, inlining={k: ("all calls", "no PARI-valued helpers", "no calls")[v] for k, v in levels.items() if v}, paths=paths)


import time, signal, multiprocessing
if __name__ == "__main__":
    main("P16", __doc__.split("\n\n", 1)[1].replace("\n", " "), rule)
