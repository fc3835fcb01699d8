"""invalid-workers: with one thread or several, under every schedule, the invalid-curve method serves each requested prime exactly once.

The coordinator, the worker and the single-threaded loop are interpreted for every small number of primes, with an uninterpreted "this prime divides
this curve's order" for each generated curve.  The worker is analysed thread-modularly: it starts from every state of the shared
tables that its siblings can produce, they may make any progress allowed to them whenever it does not hold the mutex, and each of its own critical sections must be one of the allowed
steps (claim a free prime that divides the order of its curve; turn its own claims into generated curves, count them and signal).  The coordinator is analysed
against workers that take any such steps whenever the mutex is free.  The effects of everything the workers call on process-wide variables
are collected over the call graph."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from absint import Interp, State, AnalysisError
from callgraph import CallGraph
import cstrings

AVMA = mk("G", "avma")
FREE_, CLAIMED, DONE = 0, 1, 2


class Skip(Exception):
    pass


def obj(n, kind="calloc"):
    return mk("H", (n, 0, (), ()), kind)


class World:
    """shared tables with ghost state; st.prop is a dict frozen to a tuple of pairs"""

    def __init__(self, c, m, N):
        self.c, self.m, self.N = c, m, N
        self.bad = {}
        self.n = dict(locks=0, sections=0, claims=0, done=0, ends=0, signals=0, accesses=0)
        if [m.enums.get(x, k) for k, x in enumerate(("STATE_FREE", "STATE_GENERATING", "STATE_GENERATED"))] != [0, 1, 2]:
            raise Skip("the states of a prime are not numbered in order")
        self.states, self.curves, self.generated, self.primes, self.mutex, self.cond = (obj("shared " + x) for x in ("states", "curves", "generated", "primes", "mutex", "cond"))
        self.cfg = obj("cfg")

    # ghost
    @staticmethod
    def get(st, k, d=None):
        return dict(st.prop).get(k, d)

    @staticmethod
    def put(st, **kw):
        d = dict(st.prop)
        d.update(kw)
        st.prop = tuple(sorted(d.items(), key=lambda x: x[0]))

    def fail(self, kind, i, msg, st):
        self.bad.setdefault((kind, msg), (i if isinstance(i, str) else i.loc(), st.path()))

    def shared(self, p):
        b = base_of(p)
        return b in (self.states, self.curves, self.generated)

    def tables(self, ip, st):
        s = [ip.load(st, ptradd(self.states, 4 * k)) for k in range(self.N)]
        cv = [ip.load(st, ptradd(self.curves, 8 * k)) for k in range(self.N)]
        return s, cv, ip.load(st, self.generated)

    def prime(self, k):
        return mk("sym", "prime%d" % k)

    def interp(self):
        m = self.m
        ip = Interp(m)
        ip.trace_branches = False
        ip.unroll, ip.force_unroll = 10, True
        ip.max_steps, ip.max_paths = 6000000, 60000
        ip.merge = lambda fn: False
        ip.on_load = self.load
        ip.on_store = self.store
        for n in ("random_init",):
            pass
        for n in ("output_o", "output_o_separator", "output_o_begin", "output_o_end", "fprintf", "fflush", "fputs", "fputc", "fwrite", "printf", "pari_printf", "pari_fprintf", "vfprintf"):
            ip.hooks[n] = lambda ip, v, s, u, i: [Outcome("ret", ZERO, s)]
        # clearing a curve to use it again, or releasing it
        for f in m.repo_fns():
            if f.dty and len(f.dty) == 4 and re.sub(r"const|struct|\*| ", "", f.dty[1]) in ("curve_t", "curve_s") and any("ulong" in x or "pari_sp" in x for x in f.dty[2:]):
                ip.hooks[f.dname] = self.unroll(f.dname)
        ip.hooks["curve_free"] = self.free
        ip.hooks["curve_new"] = self.new
        ip.hooks["curve_new_copy"] = self.copy
        ip.hooks["exhaustive_gen_retry"] = self.generate
        ip.hooks["pthread_mutex_lock"] = self.lock
        ip.hooks["pthread_mutex_unlock"] = self.unlock
        ip.hooks["pthread_cond_signal"] = ip.hooks["pthread_cond_broadcast"] = self.signal
        for n in ("gcopy", "icopy"):
            ip.hooks[n] = lambda ip, v, s, u, i: [Outcome("ret", v[0], s)]
        ip.hooks["verbose_log"] = lambda ip, v, s, u, i: [Outcome("ret", ZERO, s)]
        return ip

    def start(self, ip, held=False):
        m = self.m
        st = State()
        st.prop = ()
        self.put(st, held=held, gen=0, made=(), rec=(), need=False, mine=(), pts=(), printed=(), out=())
        ip.store(st, mk("G", "cfg"), self.cfg)
        for k in ("verbose", "debug", "timeout"):
            try:
                ip.store(st, ptradd(self.cfg, m.off("config_t", k)), ZERO)
            except Exception:
                pass
        for k in range(self.N):
            ip.store(st, ptradd(self.primes, 8 * k), self.prime(k))
            for j in range(k):
                ip.assume(st, ip.icmp("ult", self.prime(j), self.prime(k)), True)
                ip.assume(st, ip.icmp("eq", self.prime(j), self.prime(k)), False)
                ip.assume(st, ip.icmp("eq", self.prime(k), self.prime(j)), False)
        return st

    # hooks
    def tick(self, st, cv):
        """what the curve refers to was put on the stack now"""
        t = self.get(st, "time", 0) + 1
        d = dict(self.get(st, "ctime", ()))
        d[cv] = t
        self.put(st, time=t, ctime=tuple(d.items()))

    def stack(self, ip, st, p, v, i):
        if p is AVMA and v.op == "mark":
            for cv, t in self.get(st, "ctime", ()):
                if t > v.a[0] and cv in [x for x, _ in self.get(st, "rec")]:
                    self.fail("memory", i, "the stack is reset although a curve recorded for a prime lies on it", st)

    def load(self, ip, st, p, i):
        if p is AVMA:
            ip.store(st, AVMA, mk("mark", self.get(st, "time", 0)))
            return
        if self.shared(p) and self.get(st, "conc", False):
            self.n["accesses"] += 1
            if not self.get(st, "held"):
                self.fail("race", i, "%s reads the shared %s without holding the mutex" % (i.fn.dname, self.which(p)), st)

    def store(self, ip, st, p, v, i):
        self.stack(ip, st, p, v, i)
        if self.shared(p) and self.get(st, "conc", False):
            self.n["accesses"] += 1
            if not self.get(st, "held"):
                self.fail("race", i, "%s writes the shared %s without holding the mutex" % (i.fn.dname, self.which(p)), st)

    def which(self, p):
        b = base_of(p)
        return "state table" if b is self.states else "curve table" if b is self.curves else "count"

    def unroll(self, n):
        def h(ip, v, st, uid, i):
            if v[0] in [x for x, _ in self.get(st, "rec")]:
                self.fail("reuse", i, "%s clears a curve that was recorded for a prime" % n, st)
            return [Outcome("ret", I(-1), st)]
        return h

    def free(self, ip, v, st, uid, i):
        x = ip.load(st, v[0])
        if x in [x for x, _ in self.get(st, "rec")] and not self.get(st, "ended", False):
            self.fail("reuse", i, "a curve that was recorded for a prime is freed", st)
        ip.store(st, v[0], ZERO)
        return [Outcome("ret", mk("undef"), st)]

    def new(self, ip, v, st, uid, i):
        n = self.get(st, "news", 0)
        self.put(st, news=n + 1)
        t = mk("H", ("new curve", n, (), ()), "calloc")
        for nm in ("field", "a", "b", "curve", "order", "generators", "ngens", "seed"):
            ip.store(st, ptradd(t, self.m.off("curve_t", nm)), ZERO)
        return [Outcome("ret", t, st)]

    def copy(self, ip, v, st, uid, i):
        n = self.get(st, "news", 0)
        self.put(st, news=n + 1)
        t = mk("H", ("copied curve", n, (), ()), "calloc")
        for nm in ("field", "a", "b", "curve", "order", "generators", "ngens", "seed"):
            ip.store(st, ptradd(t, self.m.off("curve_t", nm)), ip.load(st, ptradd(v[0], self.m.off("curve_t", nm))))
        self.tick(st, t)
        made = dict(self.get(st, "made"))
        if v[0] in made:
            made[t] = made[v[0]]
        pts = dict(self.get(st, "pts"))
        if v[0] in pts:
            pts[t] = pts[v[0]]
        self.put(st, made=tuple(made.items()), pts=tuple(pts.items()), copyof=self.get(st, "copyof", ()) + ((t, v[0]),))
        return [Outcome("ret", t, st)]

    def order(self, st, cv):
        return dict(self.get(st, "made")).get(cv)

    def divides(self, ip, st, cv, k):
        """does prime k divide the order of the curve, on this path?"""
        o = self.order(st, cv)
        if o is None:
            return None
        return ip.decide(st, ip.icmp("ne", mk("bool", "dvdii", o, stoi(self.prime(k))), ZERO)) if False else ip.decide(st, mk("bool", "dvdii", o, stoi(self.prime(k))))

    def generate(self, ip, v, st, uid, i):
        cv, setup, s, e = v[0], v[1], ip.conc(st, v[2]), ip.conc(st, v[3])
        retry = v[4] if len(v) > 4 else ZERO
        if s.op != "i" or e.op != "i":
            raise Skip("stages not constant")
        s, e = s.a[0], e.a[0]
        if cv in [x for x, _ in self.get(st, "rec")]:
            self.fail("reuse", i, "a curve that was recorded for a prime is generated again", st)
        if s < ORDER:
            for k, nm in ((FIELD, "field"), (A, "a")):
                if k < s and self.original is not None:
                    o = self.m.off("curve_t", nm)
                    if ip.load(st, ptradd(cv, o)) is not ip.load(st, ptradd(self.original, o)):
                        self.fail("same", i, "a curve is generated whose %s is not that of the original curve" % ("field" if k == FIELD else "coefficient a"), st)
            if self.on_new(ip, st, i) is False:
                return []
            g = self.get(st, "gen") + 1
            o = mk("sym", "order of curve %d" % g)
            made, pts = dict(self.get(st, "made")), dict(self.get(st, "pts"))
            made[cv] = o
            pts.pop(cv, None)
            self.put(st, gen=g, made=tuple(made.items()), pts=tuple(pts.items()))
            ip.store(st, ptradd(cv, self.m.off("curve_t", "order")), o)
        self.tick(st, cv)
        if e > POINTS:
            t = ip.load(st, ptradd(setup, self.m.off("exhaustive_t", "gen_argss")))
            a = ip.load(st, ptradd(t, 8 * POINTS)) if t is not ZERO else ZERO
            ps = []
            if a is not ZERO:
                n = ip.conc(st, ip.load(st, ptradd(a, self.m.off("arg_t", "nargs"))))
                q = ip.load(st, ptradd(a, self.m.off("arg_t", "args")))
                if n.op != "i" or n.a[0] > 20:
                    raise Skip("number of primes of the points stage not constant")
                ps = [ip.load(st, ptradd(q, 8 * k)) for k in range(n.a[0])]
            pts = dict(self.get(st, "pts"))
            pts[cv] = tuple(ps)
            self.put(st, pts=tuple(pts.items()))
            for p in ps:
                if p not in [self.prime(k) for k in range(self.N)]:
                    self.fail("primes", i, "points are generated for %s, not one of the primes" % pretty(p), st)
        if retry is ZERO:
            return [Outcome("ret", ONE, st)]
        s2 = st.copy()
        return [Outcome("ret", ONE, st), Outcome("ret", ZERO, s2)]

    def lock(self, ip, v, st, uid, i):
        self.n["locks"] += 1
        if self.get(st, "held"):
            self.fail("lock", i, "the mutex is locked while it is held", st)
            return []
        out = []
        for s2 in self.progress(ip, st):
            self.put(s2, held=True, snap=tuple(map(tuple, self.tables(ip, s2)[:2])) + (self.tables(ip, s2)[2],), sig=False)
            out.append(Outcome("ret", ZERO, s2))
        return out

    def unlock(self, ip, v, st, uid, i):
        if not self.get(st, "held"):
            self.fail("lock", i, "the mutex is unlocked while it is not held", st)
            return []
        self.put(st, held=False)
        self.section(ip, st, i)
        return [Outcome("ret", ZERO, st)]

    def signal(self, ip, v, st, uid, i):
        self.n["signals"] += 1
        if self.get(st, "held"):
            self.put(st, sig=True)
        else:
            self.put(st, need=False)
        return [Outcome("ret", ZERO, st)]

    def progress(self, ip, st):
        return [st]

    def section(self, ip, st, i):
        pass

    def on_new(self, ip, st, i):
        pass

    def recorded(self, ip, st, i, k, cv):
        """curve cv is the one given for prime k"""
        rec = self.get(st, "rec")
        if cv in [x for x, _ in rec]:
            self.fail("alias", i, "two primes share one curve object", st)
        d = self.divides(ip, st, cv, k)
        if d is not True:
            self.fail("divides", i, "the curve recorded for a prime has an order that %s it" % ("is not divisible by" if d is False else "need not be divisible by"), st)
        if self.prime(k) not in dict(self.get(st, "pts")).get(cv, ()):
            self.fail("points", i, "a curve is recorded for a prime although no point of that order was generated on it", st)
        self.put(st, rec=rec + ((cv, k),))


class Worker(World):
    original = mk("sym", "original")
    """one worker among others: st.prop 'mine' = indices it has claimed"""

    def configs(self):
        yield (FREE_,) * self.N                 # its siblings make any progress before it first holds the mutex

    def setup(self, ip, st, t):
        for k, s in enumerate(t):
            ip.store(st, ptradd(self.states, 4 * k), I(s))
            ip.store(st, ptradd(self.curves, 8 * k), obj("curve of another worker %d" % k) if s == DONE else ZERO)
        ip.store(st, self.generated, I(sum(s == DONE for s in t)))

    def progress(self, ip, st):
        """what the others may have done while the mutex was free"""
        s, cv, g = self.tables(ip, st)
        mine = self.get(st, "mine")
        if any(x.op != "i" for x in s) or g.op != "i":
            raise Skip("shared state not constant")
        opts = [[x.a[0]] if k in mine else list(range(x.a[0], 3)) for k, x in enumerate(s)]
        out = []
        for t in itertools.product(*opts):
            s2 = st.copy()
            n = g.a[0]
            for k, x in enumerate(t):
                if x != s[k].a[0]:
                    ip.store(s2, ptradd(self.states, 4 * k), I(x))
                    if x == DONE:
                        ip.store(s2, ptradd(self.curves, 8 * k), obj("curve of another worker %d" % k))
                        n += 1
            ip.store(s2, self.generated, I(n))
            out.append(s2)
        return out

    def section(self, ip, st, i):
        self.n["sections"] += 1
        s0, c0, g0 = self.get(st, "snap")
        s1, c1, g1 = self.tables(ip, st)
        mine = set(self.get(st, "mine"))
        new = 0
        cvs = [x for x, _ in self.get(st, "made")]
        for k in range(self.N):
            a, b = s0[k], s1[k]
            if b.op != "i":
                raise Skip("shared state not constant")
            a, b = a.a[0], b.a[0]
            if a == b and c0[k] is c1[k]:
                continue
            if a == FREE_ and b == CLAIMED and c0[k] is c1[k]:
                cur = [x for x in cvs if self.divides(ip, st, x, k) is True]
                if not cur:
                    self.fail("claim", i, "a prime is claimed that does not divide the order of the worker's curve", st)
                mine.add(k)
                self.n["claims"] += 1
            elif b == DONE and (a == CLAIMED and k in mine or a == FREE_):
                mine.discard(k)
                new += 1
                self.n["done"] += 1
                if c1[k] is ZERO or c1[k] is c0[k]:
                    self.fail("curve", i, "a prime is marked as generated without a curve", st)
                else:
                    self.recorded(ip, st, i, k, c1[k])
            elif b == FREE_ and a == CLAIMED and k in mine and c0[k] is c1[k]:
                mine.discard(k)
            elif a == b and c0[k] is not c1[k] and a == CLAIMED and k in mine:
                pass
            else:
                nm = ("free", "claimed by another worker" if k not in mine else "claimed", "generated")
                self.fail("transition", i, "a prime that is %s is turned into one that is %s%s" % (nm[a], nm[b], "" if c0[k] is c1[k] else " and its curve is changed"), st)
        if g1.op == "i" and g0.op == "i":
            if g1.a[0] - g0.a[0] != new:
                self.fail("count", i, "the count of generated curves grows by %d while %d are added" % (g1.a[0] - g0.a[0], new), st)
        else:
            self.fail("count", i, "the count of generated curves becomes %s" % pretty(g1), st)
        need = self.get(st, "need")
        if new:
            need = True
        if self.get(st, "sig"):
            need = False
        self.put(st, mine=tuple(sorted(mine)), need=need)

    def settled(self, st, i):
        self.n["ends"] += 1
        if self.get(st, "held"):
            self.fail("lock", i, "the worker goes on holding the mutex", st)
        if self.get(st, "mine"):
            self.fail("abandoned", i, "the worker goes on to another curve although a prime it claimed has not been generated", st)
        if self.get(st, "need"):
            self.fail("signal", i, "curves were added without signalling the coordinator", st)

    def on_new(self, ip, st, i):
        if self.get(st, "held"):
            self.fail("lock", i, "a curve is generated while the mutex is held", st)
        if self.get(st, "gen") >= 1:
            self.settled(st, i)
            return False
        for k in ("started", "seeded", "timers"):
            if not self.get(st, k, False):
                self.fail(k, i, {"started": "a curve is generated before PARI is set up for the thread", "seeded": "a curve is generated before the thread's random generator is seeded",
                                 "timers": "a curve is generated before the thread's timer is set up"}[k], st)

    def run(self, f):
        m = self.m
        ip = self.interp()
        ev = lambda k: (lambda ip, v, s, u, i: (self.put(s, **{k: True}), [Outcome("ret", ZERO, s)])[1])
        ip.hooks["pari_thread_start"] = ev("started")

        def seed(ip, v, s, u, i):
            if not self.get(s, "started", False):
                self.fail("seeded", i, "the thread's random generator is seeded before PARI is set up for the thread", s)
            if v[0].op in ("i", "z"):
                self.fail("seeded", i, "the thread's random generator is seeded with a constant", s)
            self.put(s, seeded=True)
            return [Outcome("ret", mk("undef"), s)]
        ip.hooks["setrand"] = seed
        # reading the seed is left abstract: files and clocks
        rnd = m.fn("timeout_thread_init")
        if rnd is not None:
            ip.hooks["timeout_thread_init"] = ev("timers")
        nret = 0
        for t in self.configs():
            st = self.start(ip)
            self.setup(ip, st, t)
            self.put(st, conc=True, mine=())
            if rnd is None:
                self.put(st, timers=True)
            arg = obj("thread argument")
            for nm, v in (("nprimes", I(self.N)), ("primes", self.primes), ("states", self.states), ("curves", self.curves), ("generated", self.generated), ("mutex_state", self.mutex),
                          ("cond_generated", self.cond), ("setup", mk("sym", "setup")), ("original_curve", mk("sym", "original"))):
                ip.store(st, ptradd(arg, m.off("thread_t", nm)), v)
            for o in ip.run(f, [arg], st):
                if o.kind != "ret":
                    continue
                nret += 1
                self.settled(o.st, f.dname)
                g = self.tables(ip, o.st)[2]
                s = self.tables(ip, o.st)[0]
                if any(x.op == "i" and x.a[0] == FREE_ for x in s):
                    self.fail("ends", f.dname, "a worker ends although a prime is still free", o.st)
        if not nret and not self.bad:
            raise Skip("the worker never ends")
        return nret


class Coordinator(World):
    original = None
    known = False

    def shared(self, p):
        return self.known and World.shared(self, p)

    def progress(self, ip, st):
        """workers run only while the mutex is free"""
        if not self.get(st, "threads", 0) or self.get(st, "joined", 0):
            return [st]
        return [s for s, _ in self.steps(ip, st)]

    def worker(self, k):
        return obj("worker's curve %d" % k)

    def tables(self, ip, st):
        return World.tables(self, ip, st) if self.known else ((), (), ZERO)

    def steps(self, ip, st):
        s, cv, g = self.tables(ip, st)
        if any(x.op != "i" for x in s) or g.op != "i":
            raise Skip("shared state not constant")
        out = []
        for t in itertools.product(*[list(range(x.a[0], 3)) for x in s]):
            s2 = st.copy()
            n = 0
            for k, x in enumerate(t):
                if x != s[k].a[0]:
                    ip.store(s2, ptradd(self.states, 4 * k), I(x))
                    if x == DONE:
                        ip.store(s2, ptradd(self.curves, 8 * k), self.worker(k))
                        n += 1
            ip.store(s2, self.generated, I(g.a[0] + n))
            out.append((s2, n))
        return out

    def wait(self, ip, v, st, uid, i):
        if not self.get(st, "held"):
            self.fail("lock", i, "the coordinator waits without holding the mutex", st)
            return []
        if not self.get(st, "threads", 0):
            self.fail("hang", i, "the coordinator waits before any worker was started", st)
            return []
        g = ip.load(st, self.generated)
        if g.op == "i" and g.a[0] >= self.N:
            self.fail("hang", i, "the coordinator waits although every curve may already have been generated and signalled", st)
            return []
        return [Outcome("ret", ZERO, s2) for s2, n in self.steps(ip, st) if n]

    def create(self, ip, v, st, uid, i):
        arg = v[3]
        t = [ip.load(st, ptradd(arg, self.m.off("thread_t", x))) for x in ("states", "curves", "generated")]
        if self.known and t != [self.states, self.curves, self.generated]:
            self.fail("tables", i, "two workers are given different shared tables", st)
        if any(base_of(x) is not x or x.op != "H" for x in t):
            raise Skip("shared tables not allocated by the coordinator")
        self.states, self.curves, self.generated = t
        self.known = True
        s, cv, g = self.tables(ip, st)
        if any(x is not ZERO for x in s + cv) or g is not ZERO:
            self.fail("tables", i, "a worker is started before the shared tables are empty", st) if not self.get(st, "threads", 0) else None
        n = ip.load(st, ptradd(arg, self.m.off("thread_t", "nprimes")))
        if n is not I(self.N):
            self.fail("tables", i, "a worker is told of %s primes" % pretty(n), st)
        if ip.load(st, ptradd(arg, self.m.off("thread_t", "primes"))) is not self.primes:
            self.fail("tables", i, "a worker is not given the primes", st)
        if ip.load(st, ptradd(arg, self.m.off("thread_t", "pari_thread"))) not in self.get(st, "alloc", ()):
            self.fail("started", i, "a worker is started before PARI's memory for it is set up, or with that of another one", st)
        args = self.get(st, "args", ())
        if arg in args:
            self.fail("tables", i, "two workers share one argument", st)
        mu = self.get(st, "mutex")
        if mu is not None and mu is not ip.load(st, ptradd(arg, self.m.off("thread_t", "mutex_state"))):
            self.fail("lock", i, "a worker uses another mutex than the coordinator", st)
        self.put(st, threads=self.get(st, "threads", 0) + 1, conc=True, args=args + (arg,), handles=self.get(st, "handles", ()) + (v[0],))
        ip.store(st, v[0], mk("sym", "thread %d" % len(args)))
        return [Outcome("ret", ZERO, st)]

    def alloc(self, ip, v, st, uid, i):
        if v[0] in self.get(st, "alloc", ()):
            self.fail("tables", i, "two workers share one PARI stack", st)
        self.put(st, alloc=self.get(st, "alloc", ()) + (v[0],))
        return [Outcome("ret", mk("undef"), st)]

    def release(self, ip, v, st, uid, i):
        if self.get(st, "joined", 0) < self.get(st, "threads", 0):
            self.fail("join", i, "a worker's memory is freed before all workers have ended", st)
        self.put(st, freed=True)
        return [Outcome("ret", mk("undef"), st)]

    def join(self, ip, v, st, uid, i):
        if self.get(st, "held"):
            self.fail("hang", i, "the coordinator waits for the workers to end while it holds the mutex they need", st)
            return []
        if v[0].op != "sym" or v[0] in self.get(st, "ended_", ()):
            self.fail("join", i, "the coordinator joins a thread that was not started, or twice", st)
        g = ip.load(st, self.generated)
        if g.op == "i" and g.a[0] < self.N and not self.get(st, "joined", 0):
            for k in range(self.N):             # the workers end once all is generated
                ip.store(st, ptradd(self.states, 4 * k), I(DONE))
                ip.store(st, ptradd(self.curves, 8 * k), self.worker(k))
            ip.store(st, self.generated, I(self.N))
        n = self.get(st, "joined", 0) + 1
        self.put(st, joined=n, ended_=self.get(st, "ended_", ()) + (v[0],))
        if n >= self.get(st, "threads", 0):
            self.put(st, conc=False)
        return [Outcome("ret", ZERO, st)]

    def destroy(self, ip, v, st, uid, i):
        if self.get(st, "joined", 0) < self.get(st, "threads", 0):
            self.fail("join", i, "the mutex or condition is destroyed before all workers have ended", st)
        return [Outcome("ret", ZERO, st)]

    def output(self, ip, v, st, uid, i):
        cv = v[0]
        ks = [k for k in range(self.N) if cv is self.worker(k)]
        if not ks:
            self.fail("print", i, "%s is printed instead of a generated curve" % ("a missing curve" if cv is ZERO else pretty(cv)), st)
        elif ks[0] in self.get(st, "printed"):
            self.fail("print", i, "the curve of a prime is printed twice", st)
        self.put(st, printed=self.get(st, "printed") + tuple(ks))
        return [Outcome("ret", ZERO, st)]

    def copy(self, ip, v, st, uid, i):
        if self.get(st, "freed", False):
            self.fail("memory", i, "a worker's curve is copied after the memory of the workers was freed", st)
        if v[0] is ZERO:
            self.fail("curve", i, "a missing curve is copied", st)
            return []
        return World.copy(self, ip, v, st, uid, i)

    def free(self, ip, v, st, uid, i):
        x = ip.load(st, v[0])
        if self.get(st, "joined", 0) < self.get(st, "threads", 0):
            self.fail("memory", i, "a curve is freed while workers may use it", st)
        ip.store(st, v[0], ZERO)
        return [Outcome("ret", mk("undef"), st)]

    def lock(self, ip, v, st, uid, i):
        mu = self.get(st, "mutex")
        if mu is not None and mu is not v[0]:
            raise Skip("several mutexes")
        self.put(st, mutex=v[0])
        for a in self.get(st, "args", ()):
            if ip.load(st, ptradd(a, self.m.off("thread_t", "mutex_state"))) is not v[0]:
                self.fail("lock", i, "a worker uses another mutex than the coordinator", st)
        return World.lock(self, ip, v, st, uid, i)

    def run(self, f):
        m = self.m
        ip = self.interp()
        for n, h in (("pthread_create", self.create), ("pthread_join", self.join), ("pthread_cond_wait", self.wait), ("pthread_mutex_destroy", self.destroy), ("pthread_cond_destroy", self.destroy),
                     ("pari_thread_alloc", self.alloc), ("pari_thread_free", self.release), ("output_o", self.output)):
            ip.hooks[n] = h
        nret = 0
        outarr = obj("curves of the caller")
        st = self.start(ip)
        ip.store(st, ptradd(self.cfg, m.off("config_t", "threads")), I(2))
        for k in range(self.N):
            ip.store(st, ptradd(outarr, 8 * k), ZERO)
        for o in ip.run(f, arguments(f, self.N, self.primes, outarr), st):
            if o.kind != "ret":
                continue
            nret += 1
            s = o.st
            where = f.dname
            if self.get(s, "held"):
                self.fail("lock", where, "the coordinator ends holding the mutex", s)
            if self.get(s, "joined", 0) != self.get(s, "threads", 0):
                self.fail("join", where, "the coordinator ends before all workers have", s)
            if sorted(self.get(s, "printed")) != list(range(self.N)):
                self.fail("print", where, "the coordinator ends although the curve of a prime was not printed", s)
            if o.val is not I(self.N):
                self.fail("count", where, "the coordinator reports %s curves for %d primes" % (pretty(o.val), self.N), s)
            cp = dict(self.get(s, "copyof", ()))
            seen = []
            for k in range(self.N):
                x = ip.load(s, ptradd(outarr, 8 * k))
                src = cp.get(x, x)
                if src is not self.worker(k):
                    self.fail("curve", where, "what the coordinator leaves for a prime is not the curve generated for it", s)
                elif x is src and self.get(s, "freed", False):
                    self.fail("memory", where, "what the coordinator leaves for a prime lies in memory of a worker that was freed", s)
                if x in seen:
                    self.fail("alias", where, "two primes share one curve object", s)
                seen.append(x)
        if not nret and not self.bad:
            raise Skip("the coordinator never ends")
        return nret


class Single(World):
    original = mk("sym", "original")
    limit = 3

    def shared(self, p):
        return base_of(p) is self.curves

    def on_new(self, ip, st, i):
        return False if self.get(st, "gen") >= self.limit else None

    def store(self, ip, st, p, v, i):
        self.stack(ip, st, p, v, i)
        if base_of(p) is not self.curves or not self.get(st, "go", False):
            return
        for k in range(self.N):
            if p is ptradd(self.curves, 8 * k) or p is self.curves and k == 0:
                old = ip.load(st, p)
                if old is not ZERO:
                    self.fail("twice", i, "the curve of a prime is replaced by another one", st)
                if v is not ZERO:
                    self.recorded(ip, st, i, k, v)
                return
        raise Skip("curve stored at an unknown place")

    def output(self, ip, v, st, uid, i):
        rec = dict(self.get(st, "rec"))
        if v[0] not in rec:
            self.fail("print", i, "a curve is printed that is not recorded for a prime", st)
        elif rec[v[0]] in self.get(st, "printed"):
            self.fail("print", i, "the curve of a prime is printed twice", st)
        else:
            self.put(st, printed=self.get(st, "printed") + (rec[v[0]],))
        return [Outcome("ret", ZERO, st)]

    def run(self, f):
        ip = self.interp()
        ip.hooks["output_o"] = self.output
        nret = 0
        st = self.start(ip)
        for k in range(self.N):
            ip.store(st, ptradd(self.curves, 8 * k), ZERO)
        self.put(st, go=True)
        for o in ip.run(f, arguments(f, self.N, self.primes, self.curves), st):
            if o.kind != "ret":
                continue
            nret += 1
            s = o.st
            if sorted(self.get(s, "printed")) != list(range(self.N)):
                self.fail("print", f.dname, "generation ends although the curve of a prime was not printed", s)
            if o.val is not I(self.N):
                self.fail("count", f.dname, "generation reports %s curves for %d primes" % (pretty(o.val), self.N), s)
            if any(ip.load(s, ptradd(self.curves, 8 * k)) is ZERO for k in range(self.N)):
                self.fail("curve", f.dname, "generation ends although a prime has no curve", s)
        if not nret and not self.bad:
            raise Skip("generation never ends")
        return nret


def arguments(f, N, primes, curves):
    out = []
    for t in f.dty[1:]:
        t = re.sub(r"const|struct| ", "", t)
        if t in ("curve_t*", "curve_s*"):
            out.append(mk("sym", "original"))
        elif t in ("pari_ulong*", "ulong*"):
            out.append(primes)
        elif t == "size_t":
            out.append(I(N))
        elif t in ("curve_t**", "curve_s**"):
            out.append(curves)
        elif t.startswith("exhaustive_t"):
            out.append(mk("sym", "setup"))
        else:
            raise Skip("parameter of type %s" % t)
    return out


WHAT = {"race": "shared tables are only touched holding the mutex", "lock": "the mutex is taken and released in turn", "transition": "a prime only goes from free to claimed to generated",
        "claim": "only primes that divide the curve's order are claimed", "count": "the count is the number of generated curves", "curve": "a generated prime has its curve",
        "divides": "a prime divides the order of its curve", "points": "points of that order were generated", "reuse": "a recorded curve is not changed or freed", "alias": "no two primes share a curve",
        "abandoned": "claimed primes are generated", "signal": "new curves are signalled", "ends": "workers end only when no prime is free", "started": "PARI is set up for the thread",
        "seeded": "the thread's random generator is seeded", "timers": "the thread's timer is set up", "primes": "points are generated for the primes", "same": "field and a are the original curve's",
        "hang": "the coordinator does not wait in vain", "join": "workers end before what they use is released", "print": "each curve is printed once", "tables": "workers share the tables",
        "memory": "curves stay in memory that is not reclaimed", "twice": "a prime's curve is not replaced"}


def effects(c, m, workers):
    """process-wide variables written by what the workers call"""
    cg = CallGraph(m)
    w = Wiring(m, fixed={"method": m.enums.get("METHOD_INVALID", 8), "threads": 2})
    S = Stages(m, w)
    gens = set()
    names = {f.name for f in workers}
    runs = [r for r in S.runs if r.fn in workers or {x[0] for x in S.callers(r.site)} & names]
    lo = min([r.start.a[0] for r in runs if r.start.op == "i"], default=0)
    hi = max([r.end.a[0] for r in runs if r.end.op == "i"], default=9)
    for r in runs:
        def funcs(t, depth=0):
            for x in atoms(t):
                if x.op == "F":
                    gens.add(x.a[0])
                elif x.op == "H" and depth < 4:
                    for (b, o), v in r.st.mem.items():
                        if b is x and isinstance(v, T):
                            funcs(v, depth + 1)
        for k in range(lo, hi):
            for u in S.units(r, k):
                for t in (u.gen, u.unroll, u.checks):
                    if isinstance(t, T):
                        funcs(t)
    gens = {g for g in gens if g in m.fns}
    if not gens:
        c.cov["effects_undecided"] = "the workers' generators are unknown"
        return
    # indirect calls of the engine lead to the wired functions; elsewhere to nothing of the program's own
    seen, wl = set(), [f.name for f in workers] + sorted(gens)
    while wl:
        x = wl.pop()
        if x in seen or x not in m.fns:
            continue
        seen.add(x)
        wl.extend(cg.direct.get(x, ()))
    n = 0
    UNSAFE = {"strtok", "rand", "srand", "random", "srandom", "localtime", "gmtime", "asctime", "ctime", "setenv", "putenv", "setlocale", "readdir", "getpwnam"}
    for x in sorted(seen):
        f = m.fns[x]
        if not f.repo:
            continue
        for i in f.instrs():
            if i.op == "call" and (m.cname(i) or "") in UNSAFE:
                c.bad("effects/%s" % f.dname, i.loc(), "%s, which the workers call, uses %s, which is not safe to call from several threads" % (f.dname, m.cname(i)))
            tgt = i.o[1] if i.op == "store" else i.o[0] if i.op in ("atomicrmw", "cmpxchg") else None
            if tgt is None:
                continue
            g = root(f, tgt)
            if g is None:
                continue
            n += 1
            gl = m.globals.get(g)
            if gl is not None and not gl.get("tls"):
                c.bad("effects/%s" % f.dname, i.loc(), "%s, which the workers call, changes the process-wide variable %s" % (f.dname, gl.get("dname") or g))
    c.ok("effects", "%d functions, %d stores to variables of static storage" % (len(seen), n))
    c.cov.update(worker_functions=sorted(m.fns[x].dname for x in seen if m.fns[x].repo))


def root(f, o, depth=0):
    """the variable of static storage a store goes to, if it is one"""
    if depth > 8 or not isinstance(o, (list, tuple)) or not o:
        return None
    if o[0] == "g":
        return o[1]
    if o[0] == "v":
        for i in f.instrs():
            if i.id == o[1]:
                if i.op in ("getelementptr", "bitcast", "gep"):
                    return root(f, i.o[0], depth + 1)
                if i.op == "call" and "threadlocal" in str(i.d.get("callee")):
                    return None
                return None
    return None


RANGES = ("7", "8", "2", "2-2", "2-40", "3-41", "10-20", "11-13", "14-16", "24-28", "90-97", "30-400", "1000-1100", "65500-65600", "4294967290-4294967400")
ORDERS = (1, 2, 7, 13, 23, 31, 61, 211, 1009, 15013, 32767, 65537, 2 ** 31 - 1, 2 ** 32 + 15, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 127 - 1, 2 ** 192 - 237, 2 ** 256 + 1, 2 ** 521 - 1)


def nextprime(n):
    n = max(n, 2)
    while any(n % d == 0 for d in range(2, int(n ** 0.5) + 1)):
        n += 1
    return n


def primes_of(c, m, f):
    """the primes curves are generated for: those of the range given, or else the smallest ones, with a product above the square of the order"""
    o, n = [], 0
    for k, t in enumerate(f.dty[1:]):
        o.append("order" if t == "GEN" else "out")
    cases = [(r, 1009) for r in RANGES] + [(None, q) for q in ORDERS]
    for r, q in cases:
        ip = Interp(m)
        cstrings.install(ip)
        ip.trace_branches = False
        ip.unroll, ip.force_unroll, ip.unroll_decided = 4000, True, 4000
        ip.max_steps = 4000000

        def unext(ip, v, st, uid, i):
            x = ip.conc(st, v[0])
            return [Outcome("ret", I(nextprime(x.a[0])), st)] if x.op == "i" else None
        ip.hooks["unextprime"] = unext
        size = {}

        def sized(n, arg):
            def h(ip, v, st, uid, i):
                t = ip.models[n](ip, v, st, uid, i)
                x = ip.conc(st, v[arg])
                if isinstance(t, T) and t.op == "H" and x.op == "i":
                    size[t] = x.a[0]
                return [Outcome("ret", t, st)]
            return h
        for nm, arg in (("try_calloc", 0), ("try_malloc", 0), ("try_realloc", 1), ("realloc", 1), ("pari_realloc", 1), ("malloc", 0), ("pari_malloc", 0), ("pari_calloc", 0)):
            if nm in ip.models:
                ip.hooks[nm] = sized(nm, arg)

        def bound(ip, st, p, v, i):
            b = base_of(p)
            if b in size and p.op == "p" and isinstance(p.a[1], int) and p.a[1] + 8 > size[b]:
                c.bad("primes/bounds", i.loc(), "%s writes past the end of the list of primes (%s)" % (f.dname, lab))
        ip.on_store = bound
        lab = "range %s" % r if r else "order %d" % q
        st = State()
        st.prop = ()
        cfg, out = obj("cfg"), obj("result")
        ip.store(st, mk("G", "cfg"), cfg)
        ip.store(st, ptradd(cfg, m.off("config_t", "invalid_primes")), cstrings.put(st, r, r) if r else ZERO)
        outs = [x for x in ip.run(f, [z(q) if k == "order" else out for k in o], st) if x.kind == "ret"]
        lab = "range %s" % r if r else "order %d" % q
        if len(outs) != 1:
            raise Skip("%s: %d ends" % (lab, len(outs)))
        s, k = outs[0].st, ip.conc(outs[0].st, outs[0].val)
        a = ip.load(s, out)
        got = [ip.conc(s, ip.load(s, ptradd(a, 8 * j))) for j in range(k.a[0])] if k.op == "i" and k.a[0] < 4000 else None
        if got is None or any(x.op != "i" for x in got):
            raise Skip("%s: primes not constant" % lab)
        got = [x.a[0] for x in got]
        if r:
            lo, _, hi = r.partition("-")
            lo, hi = int(lo), int(hi) if hi else nextprime(int(lo))
            want, x = [], nextprime(lo)
            while x <= hi:
                want.append(x)
                x = nextprime(x + 1)
        else:
            want, prod = [], 1
            while prod <= q * q:
                want.append(nextprime(want[-1] + 1 if want else 2))
                prod *= want[-1]
        n += 1
        if r and got != want:
            c.bad("primes/range", f.dname, "the primes for %s are %s, not %s" % (lab, got[:20], want[:20]))
        elif not r:
            prod = 1
            for x in got:
                prod *= x
            if got[:len(want)] != want:
                c.bad("primes/order", f.dname, "the primes for a curve of %s are %s: %s" % (lab, got[:20], "their product is not above the square of the order" if prod <= q * q else "not the smallest primes"))
        c.ok("primes/%s" % ("range" if r else "order"), "%d primes for %s" % (len(got), lab))
    c.cov["prime_lists"] = n


def rule(c):
    m = load_module()
    workers, coords, und, n = [], [], {}, {}
    for f in m.repo_fns():
        for i in f.calls():
            if m.cname(i) == "pthread_create":
                coords.append(f)
                workers += [m.fns[o[1]] for o in i.o if o and o[0] in "gf" and o[1] in m.fns]
    sig = sorted(coords[0].dty) if coords else None
    single = [f for f in m.repo_fns() if f.dty and sorted(f.dty) == sig and f not in coords]
    jobs = []
    deep = c.tier == "thorough"
    for f in dict.fromkeys(workers):
        jobs += [(Worker, f, N) for N in ((1, 2, 3) if deep else (1, 2))]
    for f in dict.fromkeys(coords):
        jobs += [(Coordinator, f, N) for N in ((1, 2, 3, 4) if deep else (1, 2, 3))]
    for f in single:
        jobs += [(Single, f, N) for N in ((1, 2, 3) if deep else (1, 2))]
    kinds = {}
    for cls, f, N in jobs:
        t, w = time.time(), None
        try:
            w = cls(c, m, N)
            k = w.run(f)
        except (AnalysisError, Skip, KeyError) as e:
            und["%s, %d primes" % (f.dname, N)] = "%s: %s" % (type(e).__name__, str(e)[:150])
            if w is None or not w.bad:
                continue
            k = 0
        n["%s, %d primes" % (f.dname, N)] = dict(w.n, ends_of_paths=k, seconds=round(time.time() - t, 1))
        for kd in WHAT:
            kinds.setdefault((f.dname, kd), []).append(N)
        for (kd, msg), (where, path) in w.bad.items():
            c.bad("%s/%s" % (f.dname, kd), where, msg + " (%d primes)" % N, path)
            kinds[(f.dname, kd)] = None
    for (fn, kd), l in sorted(kinds.items()):
        if l:
            c.ok("%s/%s" % (fn, kd), "%s: %s primes" % (WHAT[kd], "/".join(map(str, l))))
    for f in m.repo_fns():
        if f.dty and f.dty[0] == "size_t" and sorted(f.dty[1:]) == ["GEN", "pari_ulong**"]:
            try:
                primes_of(c, m, f)
            except (AnalysisError, Skip, KeyError) as e:
                und[f.dname] = "%s: %s" % (type(e).__name__, str(e)[:150])
    if workers:
        effects(c, m, list(dict.fromkeys(workers)))
    c.cov.update(analysed=n, undecided=und)


import time, re
if __name__ == "__main__":
    main("P17", __doc__.split("\n\n", 1)[1].replace("\n", " "), rule)
