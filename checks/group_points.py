"""group-points: every generator and point recorded for a curve lies on it and is recorded with its true order.

Every wired generator of the subgroup and point stages (for all option classes, and those of the invalid-curve method) is interpreted on
an arbitrary curve.  In every state where a loop iteration ends or the stage is accepted, each point object filled in by it must satisfy
the rule: the point comes from an operation of the group of this very curve, its recorded order is the order of this very point (computed
by ellorder, copied together with the point, or n/k for k times a point of order n with k | n), and the cofactor recorded with a generator
is the curve order divided by that order.  Lists of points record as many entries as were stored."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from order_requests import METHODS


def scenarios(m):
    base = dict(hex_check=0, prime=0, smooth=0)
    for name, mo in METHODS:
        for kw in (dict(unique=0, cofactor=0), dict(unique=1, cofactor=0), dict(unique=0, cofactor=1)):
            for field in ("FIELD_PRIME", "FIELD_BINARY") if name in ("normal", "ansi") else ("FIELD_PRIME",):
                yield name, (GENS,), dict(base, **mo, **kw, field=field, koblitz=0)
    for t in ("POINTS_NONE", "POINTS_PRIME", "POINTS_NONPRIME", "POINTS_ALL", "POINTS_RANDOM"):
        if t not in m.enums:
            continue
        for name, mo in METHODS[:1] + METHODS[-3:]:
            yield name, (POINTS,), dict(base, **mo, unique=0, cofactor=0, field="FIELD_PRIME", koblitz=0, points__type=t)
    yield "cm", (GENS, POINTS), dict(method="METHOD_CM", field="FIELD_PRIME", hex_check=0, unique=0)
    yield "cm", (GENS,), dict(method="METHOD_CM", field="FIELD_PRIME", hex_check=0, unique=1)
    yield "invalid", (GENS, POINTS), dict(method="METHOD_INVALID", field="FIELD_PRIME", threads=1)


class Judge:
    def __init__(self, c, sc, u):
        self.c, self.sc, self.u, self.ip, self.m = c, sc, u, sc.ip, sc.m
        self.E = mk("ld", ptradd(CUR, self.m.off("curve_t", "curve")))
        self.N = mk("ld", ptradd(CUR, self.m.off("curve_t", "order")))
        self.o = {x: self.m.off("point_t", x) for x in ("point", "order", "cofactor")}
        self.count = 0
        self.fromlist = False

    def is_point_obj(self, h, ty="point_t*"):
        """object allocated as a point_t"""
        u = h.a[0]
        while isinstance(u, tuple) and len(u) == 4:
            f = [g for g in self.m.fns.values() if g.dname == u[0] and g.dty]
            if f and f[0].dty[0] == ty:
                return True
            if f and f[0].dty[0] not in ("void*",):
                return False
            u = u[2][0] if u[2] else None
        return False

    def symobj(self, t, what):
        """t is <object>->what of an object that was there before: the object's address"""
        if t.op == "ld":
            p = t.a[0]
            b = ptradd(p, -self.o[what])
            return b
        return None

    def order_of(self, st, q):
        """terms known to be the order of point q"""
        res = [mk("call", "ellorder", self.E, q, ZERO), mk("call", "ellorder", self.E, q, self.N)]
        if q.op == "ld":
            b = self.symobj(q, "point")
            res.append(self.ip.load(st, ptradd(b, self.o["order"])))
        return res

    def on_curve(self, st, q, d=0):
        E = self.E
        if d > 6:
            return False
        if q.op == "call" and q.a[0] in ("ellmul", "ellneg") and q.a[1] is E:
            return self.on_curve(st, q.a[2], d + 1)
        if q.op == "call" and q.a[0] in ("elladd", "ellsub") and q.a[1] is E:
            return self.on_curve(st, q.a[2], d + 1) and self.on_curve(st, q.a[3], d + 1)
        if q.op == "call" and q.a[0] in ("ellrandom", "genrand") and q.a[1] is E:
            return True
        if q.op == "ld":
            p = q.a[0]
            b = p.a[0] if p.op == "px" else split(p)[0]
            if b.op == "call" and b.a[0] in ("ellff_get_gens", "ellgenerators") and b.a[1] is E:
                return self.index_ok(st, p)
            if any(x is CUR for x in atoms(p)) and self.old(q):
                return True                # a point recorded by an earlier stage
        if q.op == "vec" and len(q.a) == 3:
            x, y = q.a[1], q.a[2]
            if y.op == "ld":
                p = y.a[0]
                b = p.a[0] if p.op == "px" else split(p)[0]
                if b.op == "call" and b.a[0] == "ellordinate" and b.a[1] is E and self.index_ok(st, p):
                    x0 = b.a[2]
                    if x is x0 or x.op == "vec" and x.a[0] == 3 and x.a[2] is x0:
                        return True
        return False

    def old(self, q):
        """q is reached from the curve by loads through generators -> subgroup -> generator -> point"""
        p = q.a[0]
        return p.op in ("ld", "p", "px", "sym")

    def index_ok(self, st, p):
        """element address of a GEN vector: index at least 1"""
        if p.op == "px":
            d = {None: p.a[1] - 8}
            for v, sc in zip(p.a[2].a[0::2], p.a[2].a[1::2]):
                self.ip.lin(v, sc, d)
            return self.ip.ge0(st, d)
        return split(p)[1] >= 8

    def order_ok(self, st, p, o):
        sc = self.sc
        for n in self.order_of(st, p):
            if sc.eq(st, n, o):
                return True
        if p.op == "call" and p.a[0] == "ellmul" and p.a[1] is self.E:
            q, k = p.a[2], p.a[3]
            for n in self.order_of(st, q):
                # k = n / o with o | n,  or o = n / k with k | n
                for x, y in ((k, o), (o, k)):
                    if x.op == "call" and x.a[0] in ("exdiv", "fdiv", "floordiv") and x.a[2] is y and (x.a[1] is n or sc.eq(st, x.a[1], n)):
                        if st.facts.get(mk("bool", "dvdii", n, y)) is True or x.a[0] == "exdiv" and x is o:
                            return True
                    if x.op == "call" and x.a[0] in ("exdiv", "fdiv", "floordiv") and sc.eq(st, x, y):
                        pass
                for f, v in st.facts.items():
                    if v is True and f.op == "bool" and f.a[0] == "dvdii" and f.a[1] is n and (f.a[2] is k or f.a[2] is o):
                        other = o if f.a[2] is k else k
                        for nm in ("exdiv", "fdiv", "floordiv"):
                            if sc.eq(st, mk("call", nm, n, f.a[2]), other):
                                return True
        # a point of prime order p, multiplied by a number below it (not zero)
        return False

    def cofactor_ok(self, st, o, cf):
        sc = self.sc
        for nm in ("exdiv", "fdiv", "floordiv"):
            if cf is mk("call", nm, self.N, o) or sc.eq(st, cf, mk("call", nm, self.N, o)):
                return True
            if sc.eq(st, o, mk("call", nm, self.N, cf)):
                return True
        return False

    def judge(self, st, final):
        c, ip, u = self.c, self.ip, self.u
        objs = {k[0] for k in st.mem if k[0].op == "H" and k[1] is not None}
        gens = set()
        for (b, off), v in st.mem.items():
            if isinstance(v, T) and v.op == "H" and b.op == "H" and off == self.m.off("subgroup_t", "generator") and v in objs and self.is_point_obj(b, "subgroup_t*"):
                gens.add(v)
        for h in objs:
            if not self.is_point_obj(h):
                continue
            p = ip.load(st, ptradd(h, self.o["point"]))
            o = ip.load(st, ptradd(h, self.o["order"]))
            if (h, self.o["point"]) not in st.mem and (h, 0) not in st.mem:
                continue
            if not self.usable(p) or not self.usable(o):
                continue
            self.count += 1
            key = u.name
            q = p.a[0] if p.op == "ld" else p
            q = (q.a[0] if q.op == "px" else split(q)[0]) if p.op == "ld" else q
            if q.op == "call" and q.a[0] == "ellff_get_gens":
                self.fromlist = True
            c.obligation(p is not ZERO and self.on_curve(st, p), key + "/on-curve", key, "a recorded point is not known to lie on the curve: %s" % pretty(p)[:300], st.path(),
                         pretty(p)[:120])
            c.obligation(o is not ZERO and self.order_ok(st, p, o), key + "/order", key,
                         "the order recorded for a point is not known to be its order (point %s, order %s)" % (pretty(p)[:200], pretty(o)[:200]), st.path(),
                         pretty(o)[:120])
            if h in gens:
                cf = ip.load(st, ptradd(h, self.o["cofactor"]))
                if self.usable(cf):
                    c.obligation(cf is not ZERO and self.cofactor_ok(st, o, cf), key + "/cofactor", key,
                                 "the cofactor recorded for a generator is not the curve order divided by its order (%s)" % pretty(cf)[:200], st.path())

    # --- completeness of the list of generators
    def index(self, p):
        if p.op == "px":
            d = {None: p.a[1]}
            for v, sc in zip(p.a[2].a[0::2], p.a[2].a[1::2]):
                self.ip.lin(v, sc, d)
        else:
            d = {None: split(p)[1]}
        return {k: v // 8 for k, v in d.items()}

    def stored(self, ip, st, p, v, i):
        b = base_of(p)
        if b.op == "H" and v.op == "H" and self.is_point_obj(b, "subgroup_t**"):
            self.stores.setdefault(b, set()).add(p)
        return None

    def back(self, ip, le, st, ph, tag):
        self.judge(st, False)
        self.backs.append((le.uid, tag, {k for k in st.mem if k[0].op == "H" and self.is_point_obj(k[0], "subgroup_t**")}))

    def complete(self, s):
        """the recorded generators are entries 0..ngens-1, without gaps"""
        c, ip, u = self.c, self.ip, self.u
        A, n = self.sc.cur(s, "generators"), self.sc.cur(s, "ngens")
        ev = self.stores.get(A)
        if not ev or A.op != "H":
            return
        consts = {d[None] for d in (self.index(p) for p in ev) if all(not v for k, v in d.items() if k is not None)}
        gen = [self.index(p) for p in ev]
        gen = [d for d in gen if any(v for k, v in d.items() if k is not None)]
        ok, k = False, 0
        while k in consts:
            k += 1
        d = ip.lin(n, -1)
        d[None] = d.get(None, 0) + k
        ok = ip.ge0(s, d)
        for g in gen:
            e = dict(g)
            e[None] = e.get(None, 0)
            ip.lin(n, -1, e)
            first = min(consts) if consts else None
            if ip.ge0(s, e) and k > 0:
                ok = True
        # every iteration that goes on must have stored its entry
        loops = {}
        for uid, tag, keys in self.backs:
            loops.setdefault(uid, []).append((tag, {x for b, x in keys if b is A and isinstance(x, T)} | {x for b, x in keys if b is A and not isinstance(x, T)}))
        for uid, l in loops.items():
            if any(x for t, x in l) and any(not x for t, x in l):
                ok = False
        c.obligation(ok, u.name + "/all-generators", u.name, "the list of generators may miss entries (%s of %s)" % (sorted(consts), pretty(n)), s.path())
        full = mk("call", "ellff_get_gens", self.E)
        ip.assume(s, ip.icmp("sle", mk("lg", full), I(3)), True)       # a group of points has at most two generators
        if self.fromlist and ip.decide(s, ip.icmp("eq", mk("lg", full), I(3))) is not False:
            want = ip.lin(mk("lg", full))
            want[None] = want.get(None, 0) - 1
            ip.lin(n, -1, want)
            c.obligation(ip.ge0(s, {k: -v for k, v in want.items()}), u.name + "/generator-count", u.name,
                         "fewer generators are recorded (%s) than the group has" % pretty(n), s.path())

    def usable(self, t):
        return not any(x.op in ("lp", "join") and len(x.a) > 2 and isinstance(x.a[1], T) and x.a[1].op == "H" for x in [t])


def rule(c):
    m = load_module()
    seen, tot = set(), 0
    for name, stages, o in scenarios(m):
        sc = Scenario(m, **o)
        units = []
        for r in sc.S.runs:
            for k in stages:
                units += [u for u in sc.S.units(r, k) if u.gen.op == "F"]
        for u in units:
            key = (u.name, u.arg is ZERO, tuple(x for x, _ in sc.checks(u)), u.stage, o.get("points__type"))
            if key in seen:
                continue
            seen.add(key)
            j = Judge(c, sc, u)
            j.stores, j.backs = {}, []
            sc.ip.on_backedge, sc.ip.on_store = j.back, j.stored
            acc = sc.accepted(u)
            for s in acc:
                j.judge(s, True)
                if u.stage == GENS:
                    j.complete(s)
            sc.ip.on_backedge = sc.ip.on_store = None
            tot += j.count
            print(name, u.name, len(acc), j.count) if os.environ.get("DBG") else 0
    c.cov["functions"] = sorted({x[0] for x in seen})
    c.cov["points_judged"] = tot
    c.require(tot >= 10, "only %d recorded points were found in the generator and point stages" % tot)


if __name__ == "__main__":
    main("P05", __doc__, rule)
