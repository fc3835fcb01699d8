"""Which generator, argument, checks and unroll function every engine run uses for every stage, under which options.

Interprets the resolved program from main() with the command line unknown, and captures the setup at every call of the
generation engine.  States joining at a program point keep, per table slot, the option facts under which each value was stored."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from absint import *
from callgraph import CallGraph

CFG = mk("G", "cfg_s")


def cfgld(m, name, off=0):
    return mk("ld", ptradd(CFG, m.off("config_t", name) + off))


class Slot:
    """one alternative of a table slot"""
    __slots__ = ("facts", "iv", "ne", "val", "st", "site", "stage")

    def __init__(self, facts, iv, ne, val, st, site, stage):
        self.facts, self.iv, self.ne, self.val, self.st, self.site, self.stage = facts, iv, ne, val, st, site, stage

    def state(self):
        s = State()
        s.facts, s.iv, s.ne = dict(self.facts), dict(self.iv), dict(self.ne)
        s.mem = dict(self.st.mem)
        s.epoch = dict(self.st.epoch)
        s.zero = dict(self.st.zero)
        s.prop = "w"
        return s


class Run:
    """one engine call site"""

    def __init__(self, site, fn, st, curve, setup, start, end):
        self.site, self.fn, self.st, self.curve, self.setup, self.start, self.end = site, fn, st, curve, setup, start, end


def argp_any(ip, st, m, fixed=None):
    """any configuration the command line can produce; `fixed` option fields get the given values"""
    for k in [k for k in st.mem if k[0] is CFG]:
        del st.mem[k]
    for k, v in (fixed or {}).items():
        name, off = k if isinstance(k, tuple) else (k, 0)
        ip.store(st, ptradd(CFG, m.off("config_t", name) + off), I(v))
    st.zero.pop(CFG, None)
    st.zero.pop(mk("G", "cfg_used_s"), None)
    return [Outcome("ret", ZERO, st)]


class Wiring:
    def __init__(self, m, extra=None, entry="main", fixed=None):
        self.m = m
        self.fixed = fixed
        ip = self.ip = Interp(m)
        ip.blockjoin = True
        ip.unroll = 40
        ip.trace_branches = False
        self.runs = []
        self.threads = set()
        cg = CallGraph(m)
        eng = m.fn("exhaustive_gen_retry")
        if eng is None:
            raise Broken("the generation engine (exhaustive_gen_retry) is missing")
        gens = {f.name for f in m.repo_fns() if len(f.dty) == 4 and f.dty[0] == "int" and "curve" in f.dty[1]}
        setters = set()
        for f in m.repo_fns():
            for i in f.instrs():
                ops = [x[0] for x in i.o] if i.op == "phi" else (i.o or [])
                if any(o and o[0] == "g" and o[1] in gens or o and o[0] == "f" and o[1] in gens for o in ops):
                    setters.add(f.name)
        setters -= gens
        starts = set()
        for f in m.repo_fns():
            for i in f.calls():
                if m.cname(i) == "pthread_create":
                    starts |= {o[1] for o in i.o if o and o[0] in "gf"}
                    cg.direct[f.name] |= starts
        self.rel = cg.callers_closure({eng.name}, False) | cg.callers_closure(setters, False)
        self.rel |= {f.name for f in m.repo_fns() if any("arg_t" in x or "check_t" in x or "exhaustive_t" in x for x in f.dty) and f.name not in gens}
        self.rel -= gens
        orig = ip.call

        def call(name, vals, st, uid, i):
            f = m.fns.get(name)
            if f is not None and f.repo and f.dname not in ip.hooks and f.dname not in ip.models and f.name not in self.rel:
                for v in vals:
                    if base_of(v).op == "A":
                        ip.havoc(st, base_of(v))
                return [Outcome("ret", mk("call", f.dname, uid), st)]
            return orig(name, vals, st, uid, i)
        ip.call = call
        ip.hooks["argp_parse"] = lambda ip, v, s, u, i: argp_any(ip, s, m, fixed)
        ip.hooks["exhaustive_gen_retry"] = self.capture
        ip.hooks["pthread_create"] = self.thread
        ip.hooks["pthread_cond_wait"] = ip.hooks["pthread_mutex_lock"] = self.wait
        if fixed is None:
            ip.on_store = lambda ip, st, p, v, i: False if base_of(p) is mk("G", "cfg_used_s") else None
        ip.merge = lambda fn: False
        if extra:
            extra(self)
        st = State()
        st.prop = "w"
        self.outs = ip.run(entry, [], st)

    def capture(self, ip, vals, st, uid, i):
        self.runs.append(Run(uid, i.fn, st.copy(), vals[0], vals[1], ip.conc(st, vals[2]), ip.conc(st, vals[3])))
        s2 = st.copy()
        r = mk("call", "engine", uid)
        ip.assume(s2, ip.icmp("eq", r, ZERO), False)
        return [Outcome("ret", ZERO, st), Outcome("ret", r, s2)]

    def wait(self, ip, vals, st, uid, i):
        for b in {k[0] for k in st.mem if k[0].op == "H"} | {b for b in st.zero if b.op == "H"}:
            if "calloc" in b.a[1:] and "arg_new" not in str(b.a[0]) and "check_new" not in str(b.a[0]):
                ip.havoc(st, b)
        return [Outcome("ret", ZERO, st)]

    def thread(self, ip, vals, st, uid, i):
        f = ip.conc(st, vals[2])
        if f.op == "F" and (f, uid[0]) not in self.threads:
            self.threads.add((f, uid[0]))
            s2 = st.copy()
            ip.run(self.m.fns[f.a[0]], [vals[3]], s2, (uid,))
        return [Outcome("ret", ZERO, st)]

    def table(self, run, name):
        return self.ip.load(run.st, ptradd(run.setup, self.m.off("exhaustive_t", name)))

    def slots(self, run, table, stage):
        """alternatives of setup-><table>[stage]"""
        st = run.st
        res = []
        for f, iv, ne, t in self.ip.expand(self.table(run, table), st.facts, st.iv, st.ne):
            if t is ZERO:
                res.append(Slot(f, iv, ne, ZERO, st, run.site, stage))
                continue
            for f2, iv2, ne2, v in self.ip.expand(self.ip.load(st, ptradd(t, 8 * stage)), f, iv, ne):
                res.append(Slot(f2, iv2, ne2, v, st, run.site, stage))
        return res


if __name__ == "__main__":
    import time
    m = load_module()
    t = time.time()
    w = Wiring(m)
    print(time.time() - t, len(w.runs), w.ip.steps, sorted(w.m.fns[x].dname for x in w.rel))
    for r in w.runs:
        print(r.fn.dname, r.site[2] and r.site[2][0][0], r.start, r.end, len(r.st.facts))
        for k in range(9):
            d = {}
            for s in w.slots(r, "generators", k):
                d[str(s.val)] = d.get(str(s.val), 0) + 1
            print("   ", k, d)
