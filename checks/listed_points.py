"""listed-points: the points listed with a generator are exactly those the --points option asks for.

Every wired generator of the point stage is interpreted on a curve with one or two generators whose orders are products of unknown distinct
primes of a given shape (exponents up to 7, 10 in the thorough run): the recorded list must contain one point per prime divisor / per divisor above 1 / per composite
divisor of the generator's order for prime / all / nonprime, no point for none, exactly the requested number for random (one if no number was
given), and in the invalid-curve method one point per listed prime dividing the order.  Each recorded entry must be filled in."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
from order_requests import METHODS
from term import _poly


PR = [mk("stoi", mk("sym", "prime%d" % k)) for k in range(6)]


def mono(t):
    """exponents of a product of the unknown primes"""
    d = _poly(t)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if c != 1 or any(a not in PR for a, e in m):
        return None
    return {a: e for a, e in m}


def term(d):
    r = z(1)
    for a, e in d.items():
        r = pmul(r, ppow(a, e))
    return r


def divs(d):
    ks = list(d)
    return [{k: e for k, e in zip(ks, es) if e} for es in itertools.product(*[range(d[k] + 1) for k in ks])]


def hooks(ip):
    R = lambda v, st: [Outcome("ret", v, st)]
    M = ip.models

    def fallback(name):
        def f(ip, v, st, uid, i):
            r = M[name](ip, v, st, uid, i) if name in M else None
            if isinstance(r, list):
                return r
            return R(r if r is not None else ip.opaque_call(name, v, st, uid), st)
        return f

    def hook(*names):
        def d(f):
            for n in names:
                def h(ip, v, st, uid, i, n=n, fb=fallback(n)):
                    r = f(ip, v, st)
                    return R(r, st) if r is not None else fb(ip, v, st, uid, i)
                ip.hooks[n] = h
        return d

    def vec(ip, st, x):
        x = ip.reify(st, x)
        return list(x.a[1:]) if x.op == "vec" and x.a[0] in (17, 18) else None

    @hook("isprime", "ispseudoprime", "BPSW_psp", "gisprime")
    def _(ip, v, st):
        d = mono(ip.reify(st, v[0]))
        return None if d is None else I(sum(d.values()) == 1)

    @hook("Z_factor", "factor", "factorint", "absZ_factor")
    def _(ip, v, st):
        d = mono(ip.reify(st, v[0]))
        return None if d is None else mk("vec", 19, mk("vec", 18, *d), mk("vec", 18, *[z(e) for e in d.values()]))

    @hook("divisors")
    def _(ip, v, st):
        d = mono(ip.reify(st, v[0]))
        return None if d is None else mk("vec", 17, *[term(x) for x in sorted(divs(d), key=lambda x: sum(x.values()))])

    @hook("omega", "bigomega", "omegai")
    def _(ip, v, st):
        return None

    @hook("divii", "diviiexact", "truedivii", "gdiv", "gdivexact", "gdivent")
    def _(ip, v, st):
        a, b = mono(ip.reify(st, v[0])), mono(ip.reify(st, v[1]))
        if a is None or b is None or any(a.get(k, 0) < e for k, e in b.items()):
            return None
        return term({k: e - b.get(k, 0) for k, e in a.items()})

    @hook("dvdii")
    def _(ip, v, st):
        a, b = mono(ip.reify(st, v[0])), mono(ip.reify(st, v[1]))
        return None if a is None or b is None else I(all(a.get(k, 0) >= e for k, e in b.items()))

    @hook("equalii", "gequal", "gidentical")
    def _(ip, v, st):
        a, b = ip.reify(st, v[0]), ip.reify(st, v[1])
        x, y = (mono(a) if a.op != "z" or a.a[0] == 1 else None), (mono(b) if b.op != "z" or b.a[0] == 1 else None)
        return None if x is None or y is None else I(x == y)

    @hook("gcdii", "ggcd")
    def _(ip, v, st):
        a, b = mono(ip.reify(st, v[0])), mono(ip.reify(st, v[1]))
        return None if a is None or b is None else term({k: min(e, b[k]) for k, e in a.items() if k in b})

    @hook("equalis", "equaliu", "gequalgs", "gequal1", "equali1", "isint1")
    def _(ip, v, st):
        d = mono(ip.reify(st, v[0]))
        n = v[1] if len(v) > 1 else ONE
        if d is None or n.op != "i" or n.a[0] > 1 and sum(d.values()) <= 1:
            return None
        return I(n.a[0] == 1 and not d) if n.a[0] <= 1 else None

    @hook("gtoset", "vecsort0_")
    def _(ip, v, st):
        x = vec(ip, st, v[0])
        if x is None:
            return None
        return mk("vec", 17, *dict.fromkeys(x))

    @hook("gtovec", "vec_Q_primpart_")
    def _(ip, v, st):
        x = ip.reify(st, v[0])
        if x.op == "vec" and x.a[0] in (17, 18):
            return mk("vec", 17, *x.a[1:])
        return mk("vec", 17, x) if mono(x) is not None else None

    @hook("vec_append", "shallowconcat", "gconcat")
    def _(ip, v, st):
        x = vec(ip, st, v[0])
        y = vec(ip, st, v[1])
        if x is None:
            return None
        return mk("vec", 17, *x, *(y if y is not None else [ip.reify(st, v[1])]))

    @hook("rowslice_", "vecslice")
    def _(ip, v, st):
        x = vec(ip, st, v[0])
        if x is None or v[1].op != "i" or v[2].op != "i":
            return None
        return mk("vec", 17, *x[v[1].a[0] - 1:v[2].a[0]])

    @hook("ellmul")
    def _(ip, v, st):
        t = mk("call", "ellmul", *[ip.reify(st, x) for x in v])
        ip.assume(st, ip.icmp("eq", t, ZERO), False)
        return t

    def rnd(ip, v, st, uid, i):
        r = ip.reify(st, v[0])
        if r.op == "vec" and len(r.a) == 3 and r.a[1].op == "z" and r.a[2].op == "z" and 0 <= r.a[2].a[0] - r.a[1].a[0] < 8:
            return [Outcome("ret", z(k), st.copy()) for k in range(r.a[1].a[0], r.a[2].a[0] + 1)]
        return fallback("genrand")(ip, v, st, uid, i)
    ip.hooks["genrand"] = rnd


SHAPES = [(1,), (2,), (3,), (4,), (5,), (7,), (1, 1), (2, 1), (1, 2), (2, 2), (4, 2), (1, 1, 1), (1, 3, 1), (1, 1, 1, 1)]
DEEP = SHAPES + [(9,), (10,), (2, 1, 1), (5, 3), (2, 2, 2), (1, 1, 1, 1, 1), (3, 2, 1, 1)]


class Eval:
    def __init__(self, c, sc, u):
        self.c, self.sc, self.u, self.ip, self.m = c, sc, u, sc.ip, sc.m

    def setup(self, orders, arg):
        m, ip = self.m, self.ip
        st = self.sc.S.curve_state(self.u)
        C = lambda n: ptradd(CUR, m.off("curve_t", n))
        ip.store(st, C("ngens"), I(len(orders)))
        ga = mk("H", ("points-check", 0, (), ()), "calloc")
        ip.store(st, C("generators"), ga)
        subs = []
        for k, d in enumerate(orders):
            s, g = (mk("H", ("points-check", 10 * k + x, (), ()), "calloc") for x in (1, 2))
            ip.store(st, ptradd(ga, 8 * k), s)
            ip.store(st, ptradd(s, m.off("subgroup_t", "generator")), g)
            ip.store(st, ptradd(s, m.off("subgroup_t", "npoints")), ZERO)
            ip.store(st, ptradd(s, m.off("subgroup_t", "points")), ZERO)
            ip.store(st, ptradd(g, m.off("point_t", "point")), mk("sym", "gen%d" % k))
            ip.assume(st, ip.icmp("eq", mk("sym", "gen%d" % k), ZERO), False)
            ip.store(st, ptradd(g, m.off("point_t", "order")), term(d))
            subs.append(s)
        a = self.u.arg
        if arg is not None:
            a = mk("H", ("points-check", 90, (), ()), "calloc")
            arr = mk("H", ("points-check", 91, (), ()), "calloc")
            for k, x in enumerate(arg):
                ip.store(st, ptradd(arr, 8 * k), x.a[0])
            ip.store(st, ptradd(a, m.off("arg_t", "args")), arr)
            ip.store(st, ptradd(a, m.off("arg_t", "nargs")), I(len(arg)))
        return st, subs, a

    def lists(self, st, subs):
        """per generator the recorded orders, or None if not known; ('hole', k) for an entry that is not filled in"""
        m, ip = self.m, self.ip
        res = []
        for s in subs:
            n = ip.load(st, ptradd(s, m.off("subgroup_t", "npoints")))
            if n.op != "i":
                return None
            p = ip.load(st, ptradd(s, m.off("subgroup_t", "points")))
            l = []
            for k in range(n.a[0]):
                if p is ZERO:
                    l.append(("hole", k))
                    continue
                o = ip.load(st, ptradd(p, 8 * k))
                if o is ZERO or o.op == "undef":
                    l.append(("hole", k))
                    continue
                l.append(ip.reify(st, ip.load(st, ptradd(o, m.off("point_t", "order")))))
            res.append(l)
        return res

    def run(self, orders, arg=None):
        st, subs, a = self.setup(orders, arg)
        n = 0
        for o in self.ip.run(self.u.gen.a[0], [CUR, a, I(self.u.stage)], st):
            if o.kind == "ret" and self.ip.assume(o.st, self.ip.icmp("eq", o.val, ONE), True):
                n += 1
                yield self.lists(o.st, subs), o.st


def wanted(kind, d, arg):
    if kind == "prime":
        return [{k: 1} for k in d]
    if kind == "all":
        return [x for x in divs(d) if x]
    if kind == "nonprime":
        return [x for x in divs(d) if sum(x.values()) > 1]
    if kind == "trial":
        return [{k: 1} for k in arg if k in d]
    return []


KINDS = [("none", "POINTS_NONE", {}), ("prime", "POINTS_PRIME", {}), ("nonprime", "POINTS_NONPRIME", {}), ("all", "POINTS_ALL", {}),
         ("random", "POINTS_RANDOM", dict(points__amount=0)), ("random", "POINTS_RANDOM", dict(points__amount=1)),
         ("random", "POINTS_RANDOM", dict(points__amount=3))]


def shapes(c):
    for s in (DEEP if c.tier == "thorough" else SHAPES):
        yield [dict(zip(PR, s))]
    yield [{PR[0]: 1, PR[1]: 1}, {PR[0]: 1}]
    yield [{PR[0]: 2, PR[1]: 1}, {PR[0]: 1, PR[1]: 1}]


def show(l):
    f = lambda d: "*".join("%s%s" % ("pqrstu"[PR.index(k)], "^%d" % e if e > 1 else "") for k, e in d.items()) or "1"
    return "{" + ", ".join(sorted(f(x) for x in l)) + "}"


def judge(c, sc, u, kind, amount, label, deep=None):
    ev = Eval(c, sc, u)
    ndec = 0
    for orders in shapes(c):
        args = [None]
        if kind == "trial":
            args = [[PR[0]], [PR[0], PR[1]], [PR[5], PR[0]], [PR[1], PR[5], PR[0]], [PR[5]]]
        for arg in args:
            for l, st in ev.run(orders, arg):
                if l is None:
                    continue
                where = u.name
                hole = [(k, x[1]) for k, g in enumerate(l) for x in g if isinstance(x, tuple)]
                what = "%s, generator order%s %s" % (label, "s" * (len(orders) > 1), " and ".join(show([o])[1:-1] for o in orders))
                c.obligation(not hole, "hole/%s" % kind, where, "an entry of the list of points is recorded but not filled in (%s)" % what, st.path(), what)
                if hole:
                    continue
                ndec += 1
                if kind == "random":
                    n = sum(len(g) for g in l)
                    c.obligation(n == max(amount, 1), "count/random", where, "%d random points are recorded instead of %d (%s)" % (n, max(amount, 1), what), st.path(), what)
                    continue
                for g, d in zip(l, orders):
                    got = [mono(x) for x in g]
                    if any(x is None for x in got):
                        zero = [x for x in g if x.op == "z"]
                        c.obligation(not zero, "value/%s" % kind, where, "a point of order %s is listed (%s)" % (pretty(zero[0]) if zero else "", what), st.path(), what)
                        continue
                    exp = wanted(kind, d, arg)
                    key = lambda l: sorted(str(sorted((PR.index(k), e) for k, e in x.items())) for x in l)
                    c.obligation(key(got) == key(exp), "list/%s" % kind, where,
                                 "the listed points have orders %s instead of %s (%s)" % (show(got), show(exp), what), st.path(), what)
    return ndec


def rule(c):
    m = load_module()
    n, dec = 0, {}
    meth = dict(METHODS)
    base = dict(hex_check=0, prime=0, smooth=0, unique=0, cofactor=0, koblitz=0, field="FIELD_PRIME")
    for name, mo in METHODS:
        for kind, t, am in KINDS:
            if t not in m.enums:
                continue
            sc = Scenario(m, **dict(base, **mo, points__type=t, **am))
            hooks(sc.ip)
            sc.ip.unroll, sc.ip.force_unroll, sc.ip.unroll_decided = 70, True, 1100
            for u in sc.units(POINTS):
                if name != "normal" and (u.name, kind, str(am)) in dec:
                    c.ok("same/%s/%s" % (name, kind))
                    continue
                k = judge(c, sc, u, kind, am.get("points__amount", 0), "--points=%s%s" % (kind, am.get("points__amount", "") or ""))
                dec[(u.name, kind, str(am))] = k
                n += 1
    sc = Scenario(m, method="METHOD_INVALID", threads=1, seed_algo=0, prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0, points__type="POINTS_PRIME")
    hooks(sc.ip)
    sc.ip.unroll, sc.ip.force_unroll, sc.ip.unroll_decided = 70, True, 1100
    seen = set()
    for r in sc.S.runs:
        if r.start is ZERO or r.end.op == "i" and r.end.a[0] <= POINTS:
            continue
        for u in sc.S.units(r, POINTS):
            if u.gen.op != "F" or u.name in seen:
                continue
            seen.add(u.name)
            dec[(u.name, "trial", "")] = judge(c, sc, u, "trial", 0, "invalid curves, primes to cover")
            n += 1
    c.cov.update(generators=n, decided={"%s %s%s" % (k[0], k[1], k[2] if k[2] != "{}" else ""): v for k, v in dec.items()}, shapes=len(list(shapes(c))))


if __name__ == "__main__":
    main("P10", __doc__, rule)
