"""Running the wired generators and checks stage by stage on a symbolic curve."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from wiring import *
from term import *
from models import stoi, itos

STAGE = ["seed", "field", "a", "b", "curve", "order", "generators", "points", "metadata"]
SEED, FIELD, A, B, CURVE, ORDER, GENS, POINTS, META = range(9)
FIELDOF = {SEED: "seed", FIELD: "field", A: "a", B: "b", CURVE: "curve", ORDER: "order", GENS: "generators", META: "meta"}
CUR = mk("sym", "curve")
INT_MIN = -(1 << 31)


FREE = {"free", "obj_free", "gunclone", "gunclone_deep", "killblock", "pari_free"}


def destructors(m):
    """functions that only release what their argument leads to (and may null the pointer)"""
    cand = {f.name: f for f in m.repo_fns() if f.dty and f.dty[0] == "void" and len(f.dty) > 1}
    base = set()
    calls = {}
    for f in cand.values():
        calls[f.name] = [(m.cname(i), i) for i in f.calls() if not (m.cname(i) or "").startswith("llvm.")]
        if calls[f.name] and all(c is None or c in FREE for c, i in calls[f.name]) and any("void*" == x for x in f.dty[1:]):
            if not any(i.op == "store" for i in f.instrs()):
                base.add(f.name)
    good = set(base)
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            if n in good or not cs:
                continue
            if all(c in FREE or c in good or c in {m.fns[g].dname for g in good} for c, i in cs):
                good.add(n)
                ch = True
    return {m.fns[n].dname: m.fns[n] for n in good}


def destroy(f):
    def h(ip, vals, st, uid, i):
        for t, v in zip(f.dty[1:], vals):
            if t.endswith("**"):
                ip.store(st, v, ZERO)
        return [Outcome("ret", mk("void"), st)]
    return h


class Unit:
    """one generator with its argument and checks, and the option facts under which it is used for a stage"""

    def __init__(self, run, stage, gen, arg, unroll, slot, checks):
        self.run, self.stage, self.gen, self.arg, self.unroll, self.slot, self.checks = run, stage, gen, arg, unroll, slot, checks

    @property
    def name(self):
        return self.gen.a[0] if self.gen.op == "F" else pretty(self.gen)

    def state(self):
        return self.slot.state()


class Stages:
    def __init__(self, m, w=None):
        self.m = m
        self.w = w or Wiring(m)
        self.runs = self.dedupe(self.w.runs)
        self.dtors = destructors(m)
        self.bits = {f.dname for f in m.repo_fns() if os.path.basename(f.file) in ("bits.c",)} - set(self.dtors)

    def dedupe(self, runs):
        seen, out = {}, []
        for r in runs:
            k = (r.fn.name, self.callers(r.site), str(r.start), str(r.end))
            if k in seen:
                continue
            seen[k] = r
            out.append(r)
        return out

    def callers(self, site):
        c, out = site, []
        while c:
            out.append((c[0], c[1]))
            c = c[2][0] if c[2] else None
        return tuple(out)

    def units(self, run, stage):
        w, ip, st = self.w, self.w.ip, run.st
        res = []
        for g in w.slots(run, "generators", stage):
            for a in self.sub(run, "gen_argss", stage, g):
                for v in self.sub(run, "validators", stage, a):
                    for u in self.sub(run, "unrolls", stage, v):
                        res.append(Unit(run, stage, g.val, a.val, u.val, u, v.val))
        return res

    def interp(self):
        ip = Interp(self.m)
        ip.trace_branches = False
        for n, f in self.dtors.items():
            ip.hooks[n] = destroy(f)
        ip.opaque = set(ip.opaque) | self.bits
        return ip

    def curve_state(self, u, curve=CUR):
        """the option facts and the argument's memory, everything else unknown"""
        st = u.state()
        st.prop = "g"
        keep, todo = set(), [u.arg, u.checks]
        for f, iv, ne, t in self.w.ip.expand(self.w.table(u.run, "check_argss"), u.slot.facts, u.slot.iv, u.slot.ne):
            if t is not ZERO:
                todo.append(self.w.ip.load(u.run.st, ptradd(t, 8 * u.stage)))
        while todo:
            for x in atoms(todo.pop()):
                if x.op in ("H", "A") and x not in keep:
                    keep.add(x)
                    todo += [v for (b, o), v in st.mem.items() if b is x]
        st.mem = {k: v for k, v in st.mem.items() if k[0] in keep or k[0].op == "G"}
        return st

    def gen(self, ip, u, st, curve=CUR):
        """outcomes of the unit's generator"""
        return ip.run(u.gen.a[0], [curve, u.arg, I(u.stage)], st)

    def sub(self, run, table, stage, s):
        w, ip, st = self.w, self.w.ip, run.st
        res = []
        for f, iv, ne, t in ip.expand(w.table(run, table), s.facts, s.iv, s.ne):
            if t is ZERO:
                res.append(Slot(f, iv, ne, ZERO, st, run.site, stage))
                continue
            for f2, iv2, ne2, v in ip.expand(ip.load(st, ptradd(t, 8 * stage)), f, iv, ne):
                res.append(Slot(f2, iv2, ne2, v, st, run.site, stage))
        return res


class Scenario:
    """a class of command lines: some option fields have the given values, all others are unknown"""
    cache = {}

    def __init__(self, m, **opts):
        self.m, self.opts = m, opts
        fx = {}
        for k, v in opts.items():
            if isinstance(v, str):
                v = m.enums[v]
            n = k.split("__")
            fx[n[0] if len(n) == 1 else (n[0], {"type": 0, "amount": 8}[n[1]])] = v
        key = (id(m), tuple(sorted(fx.items(), key=str)))
        if key not in Scenario.cache:
            Scenario.cache[key] = Stages(m, Wiring(m, fixed=fx))
        self.S = Scenario.cache[key]
        self.ip = self.S.interp()

    def abstract(self, ret=("void", "i1", "i32", "i64")):
        """treat helper functions that neither see the curve nor return a PARI value as unknown functions of their arguments that may
        overwrite the memory they are handed (for generators whose search is too large to interpret)"""
        for f in self.m.repo_fns():
            if f.dty and not any("curve_t" in x or "config_t" in x for x in f.dty) and f.ret in ret and f.dname not in self.ip.hooks \
                    and f.dty[0] not in ("GEN", "long int*", "long*"):
                def h(ip, vals, st, uid, i, f=f):
                    return [Outcome("ret", ip.opaque_call(f.dname, vals, st, uid, impure=True), st)]
                self.ip.hooks[f.dname] = h

    def __str__(self):
        return " ".join("%s=%s" % (k, v) for k, v in self.opts.items())

    def full(self):
        """runs generating complete curves (all stages up to the output)"""
        e = self.m.enums["OFFSET_END"] if "OFFSET_END" in self.m.enums else 9
        return [r for r in self.S.runs if r.start is ZERO and r.end is I(e)]

    def units(self, stage):
        return [u for r in self.full() for u in self.S.units(r, stage) if u.gen.op == "F"]

    def outcomes(self, u, st=None):
        return self.S.gen(self.ip, u, st or self.S.curve_state(u))

    def accepted(self, u, st=None):
        """states in which the unit's generator succeeded and all checks of the stage accepted"""
        ip = self.ip
        sts = []
        for o in self.outcomes(u, st):
            if o.kind == "ret" and ip.assume(o.st, ip.icmp("eq", o.val, ONE), True):
                sts.append(o.st)
        for fn, arg in self.checks(u):
            nx = []
            for s in sts:
                for o in ip.run(fn, [CUR, arg, I(u.stage)], s):
                    if o.kind == "ret" and ip.assume(o.st, ip.icmp("eq", o.val, ONE), True):
                        nx.append(o.st)
            sts = nx
        return sts

    def checks(self, u):
        """(function, argument) of the checks of the unit's stage"""
        if u.checks is ZERO:
            return []
        ip, m, st = self.ip, self.m, u.state()
        one = lambda t: ip.expand(t, u.slot.facts, u.slot.iv, u.slot.ne)[-1][3]
        n = one(ip.load(st, ptradd(u.checks, m.off("check_t", "nchecks"))))
        if n.op != "i":
            raise Broken("the number of checks of stage %s is not known: %s" % (STAGE[u.stage], pretty(n)))
        fs = one(ip.load(st, ptradd(u.checks, m.off("check_t", "checks"))))
        ar = one(self.S.w.table(u.run, "check_argss"))
        ar = one(ip.load(st, ptradd(ar, 8 * u.stage))) if ar is not ZERO else ZERO
        res = []
        for k in range(n.a[0]):
            f = one(ip.load(st, ptradd(fs, 8 * k)))
            a = one(ip.load(st, ptradd(ar, 8 * k))) if ar is not ZERO else ZERO
            if f.op == "F":
                res.append((f.a[0], a))
        return res

    def eq(self, st, x, y):
        """are the two PARI values known to be equal?"""
        if x is y:
            return True
        return self.ip.decide(st, mk("zeq", pcanon(psub(x, y))[0])) is True

    def cur(self, st, name):
        return self.ip.load(st, ptradd(CUR, self.m.off("curve_t", name)))

    def cfg(self, st, name):
        return self.ip.load(st, ptradd(CFG, self.m.off("config_t", name)))

    def used(self, run, name):
        return self.ip.load(run.st, ptradd(mk("G", "cfg_used_s"), self.m.off("config_names_t", name))) is ONE
