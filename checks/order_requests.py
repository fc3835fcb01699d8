"""order-requests: a curve is only accepted with the order / subgroup structure that was asked for.

For every class of command lines (field x method x order option x unique x Koblitz x ...), the wiring of the generation stages is
obtained by interpreting main() with these option values, and the wired order and generator stage (generator plus its checks) are
interpreted on an arbitrary curve.  In every state in which the stage is accepted, the request must be a proved fact about the very
term recorded as the order (or subgroup) of the curve; afterwards no later stage may overwrite it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *

METHODS = [("normal", dict(method=0, seed_algo=0)), ("twist", dict(method="METHOD_TWIST", seed_algo=0)),
           ("ansi", dict(method="METHOD_SEED", seed_algo="SEED_ANSI")), ("brainpool", dict(method="METHOD_SEED", seed_algo="SEED_BRAINPOOL")),
           ("brainpool-rfc", dict(method="METHOD_SEED", seed_algo="SEED_BRAINPOOL_RFC")), ("nums", dict(method="METHOD_SEED", seed_algo="SEED_NUMS")),
           ("anomalous", dict(method="METHOD_ANOMALOUS", seed_algo=0)), ("supersingular", dict(method="METHOD_SUPERSINGULAR", seed_algo=0)),
           ("family", dict(method="METHOD_FAMILY", seed_algo=0))]
MUST = {"normal": {"prime", "cofactor", "smooth", "unique"}, "twist": {"prime", "cofactor", "smooth", "unique"}, "ansi": {"prime", "cofactor", "smooth", "unique"}}


def scenarios(m):
    for name, mo in METHODS:
        for field in ("FIELD_PRIME", "FIELD_BINARY"):
            if field == "FIELD_BINARY" and name not in ("normal", "ansi"):
                continue
            for req in ("prime", "cofactor", "smooth", None):
                for unique in (0, 1):
                    for kob in ((0, 1) if name in ("normal", "twist") else (0,)):
                        o = dict(mo, field=field, unique=unique, koblitz=kob, hex_check=0)
                        o.update({r: int(r == req) for r in ("prime", "cofactor", "smooth")})
                        yield name, req, unique, o


def is_prime(ip, s, x):
    return s.facts.get(mk("bool", "isprime", x)) is True


def rule(c):
    m = load_module()
    seen, done = set(), {}
    nun = 0
    for name, req, unique, o in scenarios(m):
        sc = Scenario(m, **o)
        lab = "%s/%s/%s%s%s" % (name, o["field"][6:].lower(), req or "any", "/unique" if unique else "", "/koblitz" if o["koblitz"] else "")
        runs = sc.full()
        if not runs:
            continue
        want = set(([req] if req else []) + (["unique"] if unique else []))
        used = {r for r in want if all(sc.used(x, r) for x in runs)}
        for r in want & MUST.get(name, set()):
            c.obligation(r in used, "%s/%s-considered" % (name, r), "option set-up", "with %s curves the option %s is not looked at (%s)" % (name, r, lab))
        for u in sc.units(ORDER):
            nun += 1
            check_order(c, sc, u, lab, name, req if req in used else None)
        for u in sc.units(GENS):
            nun += 1
            check_gens(c, sc, u, lab, name, req if req in used else None, "unique" in used)
        for k in (GENS, POINTS, META):
            for u in sc.units(k):
                key = (u.name, k)
                if key in seen:
                    continue
                seen.add(key)
                for s in sc.accepted(u):
                    for p in ("order", "curve", "field", "a", "b"):
                        v = sc.cur(s, p)
                        c.obligation(v is mk("ld", ptradd(CUR, m.off("curve_t", p))), "kept/%s/%s" % (u.name, p), u.name,
                                     "the %s stage (%s) replaces the curve's %s after it was checked" % (STAGE[k], u.name, p), s.path())
    c.cov["functions"] = sorted({x[0] for x in seen})
    c.cov["units"] = nun
    c.require(nun >= 40, "only %d order/generator stages found in the wiring" % nun)


def check_order(c, sc, u, lab, name, req):
    ip, m = sc.ip, sc.m
    smooth_loop(sc, u, req)
    acc = sc.accepted(u)
    c.require(acc or True, "")
    for s in acc:
        od = sc.cur(s, "order")
        if req == "prime":
            ok = is_prime(ip, s, od)
            c.obligation(ok, "%s/prime-order" % name, u.name, "a curve with an order not known to be prime is accepted (%s, order %s)" % (lab, pretty(od)),
                         s.path(), lab)
        elif req == "cofactor":
            C = stoi(sc.cfg(s, "cofactor_value"))
            ok = False
            for f, v in s.facts.items():
                if v is True and f.op == "bool" and f.a[0] == "isprime":
                    x = f.a[1]
                    if x.op == "call" and x.a[0] in ("exdiv", "fdiv", "floordiv") and x.a[1] is od and x.a[2] is C:
                        ok = ok or s.facts.get(mk("bool", "dvdii", od, C)) is True or ip.decide(s, mk("zeq", mk("call", "remii", od, C))) is True
                    if pmul(x, C) is od or sc.eq(s, pmul(x, C), od):
                        ok = True
            c.obligation(ok, "%s/cofactor-order" % name, u.name,
                         "a curve is accepted although its order divided by the requested cofactor is not known to be a prime (%s)" % lab, s.path(), lab)
        elif req == "smooth":
            ok, why = smooth_ok(sc, s, od)
            c.obligation(ok, "%s/smooth-order" % name, u.name, "a curve is accepted although %s (%s)" % (why, lab), s.path(), lab)


def smooth_loop(sc, u, req):
    sc.backs = []
    sc.ip.on_backedge = (lambda ip, le, st, ph, tag: sc.backs.append((le, st.copy(), dict(ph), tag))) if req == "smooth" else None


def factor_index(ip, t, od):
    """t is (the bit length of) element i of the list of prime factors of od: (the list, i as a linear form)"""
    if not any(x.op == "call" and x.a[0] in ("binary_zv", "binary", "logint", "expi", "logint0") for x in atoms(t)):
        return None
    for x in atoms(t):
        if x.op != "ld":
            continue
        p = x.a[0]
        if p.op == "px":
            b, off, idx = p.a[0], p.a[1], p.a[2].a
        else:
            b, off = split(p)
            idx = ()
        if b.op == "ld" and any(y.op == "call" and y.a[0] in ("factor", "Z_factor") and od in y.a for y in atoms(b)):
            d = {None: off}
            for v, sc in zip(idx[0::2], idx[1::2]):
                ip.lin(v, sc, d)
            if all(v % 8 == 0 for v in d.values()):
                return b, {k: v // 8 for k, v in d.items()}
    return None


def smooth_ok(sc, s, od):
    """every element of the (ascending) list of prime factors of the order was compared to the bound, or at least the last one"""
    ip = sc.ip
    B = sc.cfg(s, "smooth_value")

    def bounded(st):
        res = []
        ts = set(st.iv)
        for f in st.facts:
            for x in f.a:
                if isinstance(x, T):
                    ts |= {y for y in ip.lin(x) if y is not None}
        for t in ts:
            fi = factor_index(ip, t, od)
            if fi:
                d = ip.lin(B)
                ip.lin(t, -1, d)
                if t.op == "lg":
                    d[None] = d.get(None, 0) + 1          # digits of the vector
                elif t.op == "call" and t.a[0] in ("expi", "logint", "logint0"):
                    d[None] = d.get(None, 0) - 1
                if ip.ge0(st, d):
                    res.append(fi)
        return res

    def lastidx(st, b, d, k=0):
        """index form d >= length of the list b + k"""
        e = dict(d)
        ip.lin(mk("lg", b), -1, e)
        e[None] = e.get(None, 0) + 1 - k
        return ip.ge0(st, e)

    for b, d in bounded(s):
        if lastidx(s, b, d):
            return True, ""
    first, gen = [], []
    for le, st, ph, tag in sc.backs:
        r = bounded(st)
        if not r:
            return False, "a prime factor of its order may exceed the bound"
        (first if tag == 0 else gen).append((st, r, le))
    if not first:
        lists = [x for x in atoms(mk("t", *s.facts)) if x.op == "lg" and any(y.op == "call" and y.a[0] in ("factor", "Z_factor") for y in atoms(x))]
        return False, "its prime factors are not compared to the bound"
    b = first[0][1][0][0]
    n = mk("lg", b)
    if any(lastidx(st, x, d) for st, r, le in first for x, d in r):
        return True, ""            # descending: the greatest comes first
    none = {None: 1}
    ip.lin(n, -1, none)
    if ip.ge0(s, none):
        return True, ""            # no prime factors at all
    if not any(ip.ge0(st, {None: 1 - d.get(None, 0), **{k: -v for k, v in d.items() if k is not None}}) for st, r, le in first for x, d in r):
        return False, "the check of its prime factors does not start at the first"
    for st, r, le in gen:
        if any(lastidx(s, x, d, 1) for x, d in r):
            return True, ""
    one = [d for st, r, le in first for x, d in r]
    if any(lastidx(s, b, d) for d in one):
        return True, ""
    return False, "its last prime factor may not be compared to the bound"


def check_gens(c, sc, u, lab, name, req, unique):
    ip, m = sc.ip, sc.m
    ip.on_backedge = None
    if not (unique or req == "cofactor"):
        return
    for s in sc.accepted(u):
        n = sc.cur(s, "ngens")
        for t in {x for x in atoms(n)} | {x for x in s.iv} :
            if t.op == "lg" and any(y.op == "call" and y.a[0] == "ellff_get_gens" for y in t.a if isinstance(y, T)):
                ip.assume(s, ip.icmp("sle", t, I(3)), True)
                ip.assume(s, ip.icmp("sge", t, I(1)), True)
        if unique:
            d = ip.lin(I(1))
            ip.lin(n, -1, d)
            c.obligation(ip.ge0(s, d), "%s/unique" % name, u.name, "a curve with more than one generator is accepted although one was requested (%s)" % lab, s.path(), lab)
        elif req == "cofactor":
            C = stoi(sc.cfg(s, "cofactor_value"))
            g = ip.load(s, sc.cur(s, "generators"))
            p = ip.load(s, ptradd(g, m.off("subgroup_t", "generator")))
            od, co = (ip.load(s, ptradd(p, m.off("point_t", x))) for x in ("order", "cofactor"))
            want = mk("call", "exdiv", mk("ld", ptradd(CUR, m.off("curve_t", "order"))), C)
            ok = sc.eq(s, od, want)
            c.obligation(ok and co is C, "%s/cofactor-generator" % name, u.name,
                         "the first generator does not have the order and cofactor requested (order %s, cofactor %s)" % (pretty(od), pretty(co)), s.path(), lab)


if __name__ == "__main__":
    main("P04", __doc__, rule)
