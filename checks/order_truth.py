"""order-truth: the recorded order is the number of points of the recorded curve.

For every class of command lines the wired order stage is interpreted on an arbitrary curve.  In every accepting state the recorded order must
be a point count of that very curve: counted by PARI (a possible early abort must be excluded), the tabulated order of the Koblitz curve
with the recorded coefficients (each table entry is recomputed from the Frobenius trace sequence; the twist of a Koblitz curve has another
order), p for anomalous and p + 1 for supersingular curves, or the order the CM construction was asked for and verified the curve to have.
Whatever is cached as the cardinality inside the curve object must be that same number; twist orders derived from the original
curve's must be 2q + 2 - n."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
from order_requests import METHODS, scenarios as order_scenarios

LD = lambda m, n: mk("ld", ptradd(CUR, m.off("curve_t", n)))


def hooks(ip):
    def insert(ip, vals, st, uid, i):
        # obj_insert(S, K, O): from now on a query of kind K of S answers O
        if vals[1] is ONE:
            st.facts[mk("bool", "cached", vals[0], vals[2])] = True
        return [Outcome("ret", vals[2], st)]
    ip.hooks["obj_insert"] = insert
    ip.hooks["obj_insert_shallow"] = insert

    def bsearch(ip, vals, st, uid, i):
        b, o = split(vals[0])
        key = [(I(k[1] - o), v) for k, v in st.mem.items() if k[0] is b and isinstance(k[1], int) and k[1] >= o]
        return [Outcome("ret", mk("call", "bsearch", *vals[1:], *[x for kv in sorted(key, key=lambda x: x[0].a[0]) for x in kv]), st)]
    ip.hooks["bsearch"] = bsearch


def lucas(m, a):
    """#E for y^2 + xy = x^3 + a x^2 + 1 over GF(2^m)"""
    mu = 1 if a else -1
    v0, v1 = 2, mu
    for _ in range(m - 1):
        v0, v1 = v1, mu * v1 - 2 * v0
    return 2 ** m + 1 - (v1 if m else v0)


def table(c, sc, s, od, lab, u):
    """od is the number stored in a table of Koblitz curve orders"""
    m, ip = sc.m, sc.ip
    bs = [x for x in atoms(od) if x.op == "call" and x.a[0] == "bsearch"]
    if len(bs) != 1 or not any(x.op == "ld" and split(x.a[0])[0] is bs[0] for x in atoms(od)):
        return
    b = bs[0]
    tab, n, size, cmp, key = b.a[1], b.a[2], b.a[3], b.a[4], b.a[5:]
    hexoff = [split(x.a[0])[1] for x in atoms(od) if x.op == "ld" and split(x.a[0])[0] is b][0]
    moff = aoff = None
    for o, v in zip(key[0::2], key[1::2]):
        at = atoms(v)
        if v is ZERO:
            continue
        if LD(m, "a") in at:
            aoff = o.a[0]
        elif any(x is mk("ld", ptradd(CFG, m.off("config_t", "bits"))) or x is LD(m, "field") for x in at):
            moff = o.a[0]
    c.obligation(moff is not None and aoff is not None, "koblitz/key", u.name,
                 "the tabulated order is not looked up by the degree of the field and the recorded coefficient a (%s)" % lab, s.path(), "table key")
    if moff is None or aoff is None or tab.op != "G" or n.op != "i" or cmp.op != "F":
        return
    g = m.globals[tab.a[0]]
    c.obligation(n.a[0] * size.a[0] <= g["size"], "koblitz/extent", u.name, "the search for a tabulated order runs beyond the table", None, "table extent")
    prev = None
    for k in range(min(n.a[0], g["size"] // size.a[0])):
        w = lambda o: ip.load(s.copy(), ptradd(tab, k * size.a[0] + o), 4)
        hp = ip.load(s.copy(), ptradd(tab, k * size.a[0] + hexoff))
        h = m.gstring(base_of(hp).a[0]) if base_of(hp).op == "G" else None
        mm, aa = w(moff), w(aoff)
        good = mm.op == "i" and aa.op == "i" and h is not None and aa.a[0] in (0, 1) and int(h, 0) == lucas(mm.a[0], aa.a[0])
        c.obligation(good, "koblitz/entry/%s-%s" % (pretty(mm), pretty(aa)), tab.a[0],
                     "the tabulated order of the Koblitz curve (m=%s, a=%s) is not its number of points" % (pretty(mm), pretty(aa)), None, "m=%s a=%s" % (pretty(mm), pretty(aa)))
        if prev is not None:
            st = s.copy()
            ok = all(o.kind == "ret" and o.val.op == "i" and o.val.a[0] < 0
                     for o in ip.run(cmp.a[0], [ptradd(tab, prev * size.a[0]), ptradd(tab, k * size.a[0])], st))
            c.obligation(ok, "koblitz/sorted/%d" % k, tab.a[0], "the table of orders is not sorted, so lookups are wrong (entry %d)" % k, None, "order of entries")
        prev = k
    x, y = mk("sym", "one"), mk("sym", "two")
    for o in ip.run(cmp.a[0], [x, y], State()):
        if o.kind == "ret" and ip.assume(o.st, ip.icmp("eq", o.val, ZERO), True):
            for off in (moff, aoff):
                a, b = ip.load(o.st, ptradd(x, off), 4), ip.load(o.st, ptradd(y, off), 4)
                d = any(ip.decide(o.st, t) is True for t in (ip.icmp("eq", a, b), ip.icmp("eq", ip.sub(a, b, 32), ZERO), ip.icmp("eq", ip.sub(b, a, 32), ZERO)))
                c.obligation(d, "koblitz/compare", cmp.a[0], "entries of the table are taken as equal although they are of different curves", o.st.path(), "comparison")


def counted(sc, s, od, cv):
    ip = sc.ip
    if od.op == "call" and od.a[0] in ("ellcard", "ellff_get_card") and od.a[1] is cv:
        return True, ""
    if od.op == "call" and od.a[0] == "ellsea" and od.a[1] is cv:
        if s.facts.get(mk("zeq", od)) is False or s.facts.get(mk("bool", "isprime", od)) is True or od.a[2] is ZERO:
            return True, ""
        return False, "the point counting may have been aborted"
    return False, "it is not a point count of the recorded curve: %s" % pretty(od)[:120]


def rule(c):
    m = load_module()
    n, fns, done = 0, set(), set()
    scs = [(nm, o) for nm, req, uq, o in order_scenarios(m)]
    for nm in ("twist",):
        for kob in (0, 1):
            for r in ("prime", "cofactor", "smooth", None):
                scs.append((nm, dict(method="METHOD_TWIST", seed_algo=0, field="FIELD_BINARY", unique=0, koblitz=kob, hex_check=0,
                                     **{x: int(x == r) for x in ("prime", "cofactor", "smooth")})))
    for prime in (0, 1):
        scs.append(("cm", dict(method="METHOD_CM", seed_algo=0, field="FIELD_PRIME", prime=prime, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)))
    scs.append(("invalid", dict(method="METHOD_INVALID", threads=1, seed_algo=0, prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)))
    for name, o in scs:
        key = (name, o.get("field"), o["koblitz"], o["prime"], o["cofactor"], o["smooth"])
        if key in done:
            continue
        done.add(key)
        sc = Scenario(m, **o)
        hooks(sc.ip)
        if name == "cm":
            sc.abstract()
        lab = "%s/%s%s" % (name, o.get("field", "")[6:].lower(), "".join("/" + k for k in ("koblitz", "prime", "cofactor", "smooth") if o[k]))
        units = sc.units(ORDER) if name != "invalid" else [u for r in sc.S.runs for u in sc.S.units(r, ORDER) if u.gen.op == "F"]
        for u in units:
            if u.name == "gen_skip":
                c.obligation(name == "invalid", "%s/skipped" % name, u.name, "no order is recorded (%s)" % lab)
                continue
            fns.add(u.name)
            for s in sc.accepted(u):
                n += 1
                od, cv, f = sc.cur(s, "order"), sc.cur(s, "curve"), sc.cur(s, "field")
                ok, why = counted(sc, s, od, cv)
                if not ok and name == "anomalous":
                    ok, why = od is f, "an anomalous curve over F_p has p points, not %s" % pretty(od)[:100]
                elif not ok and name == "supersingular":
                    ok, why = od is padd(f, z(1)), "a supersingular curve over F_p (p > 3) has p + 1 points, not %s" % pretty(od)[:100]
                elif not ok and name == "cm":
                    ok, why = cm_requested(sc, s, u, od), "the recorded order is not the one the curve was constructed for: %s" % pretty(od)[:100]
                elif not ok and o["koblitz"] and any(x.op in ("G", "call") and (x.op == "G" or x.a[0] == "bsearch") for x in atoms(od)):
                    ok = o["field"] == "FIELD_BINARY" and name == "normal"
                    why = "a tabulated order of a binary Koblitz curve is used for %s" % ("its twist" if name == "twist" else "another curve")
                    if ok:
                        table(c, sc, s, od, lab, u)
                c.obligation(ok, "%s/%s/count" % (name, u.name), u.name, "the recorded order is not that of the curve: %s (%s)" % (why, lab), s.path(),
                             "%s: %s" % (lab, pretty(od)[:120]))
                for k, v in s.facts.items():
                    if k.op == "bool" and k.a[0] == "cached" and v is True and k.a[1] is cv:
                        c.obligation(sc.eq(s, k.a[2], od), "%s/%s/cached" % (name, u.name), u.name,
                                     "the cardinality cached in the curve is not the recorded order (%s)" % lab, s.path(), "%s: cached" % lab)
    cm_construct(c, m, fns)
    twist(c, m, fns)
    c.cov["functions"] = sorted(fns)
    c.cov["paths"] = n
    c.require(n >= 40, "only %d accepting paths of the order stage were found" % n)


def cm_order_arg(sc, u):
    """the text the generator's argument holds"""
    ip, st = sc.ip, u.state()
    return ip.load(st, u.arg)


def cm_requested(sc, s, u, od):
    """the order and the curve stage are given the same argument, and the order is its number"""
    t = mk("call", "strtoi", cm_order_arg(sc, u))
    if od is not t:
        return False
    cu = [x for x in sc.units(CURVE)]
    return bool(cu) and all(cm_order_arg(sc, x) is cm_order_arg(sc, u) for x in cu)


def cm_construct(c, m, fns):
    """every curve the CM generators accept passed a test that it has the requested order, and the test is conclusive"""
    preds = set()
    for prime in (0, 1):
        sc = Scenario(m, method="METHOD_CM", seed_algo=0, field="FIELD_PRIME", prime=prime, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)
        sc.abstract(ret=("i1", "void"))
        for u in sc.units(CURVE):
            fns.add(u.name)
            want = mk("call", "strtoi", cm_order_arg(sc, u))
            for s in sc.accepted(u):
                cv, ok = sc.cur(s, "curve"), False
                f = sc.cur(s, "field")
                for k, v in s.facts.items():
                    t = tested(k, v)
                    if t is not None and t.op == "call" and len(t.a) > 1 and cv in t.a and want in t.a and m.fn(t.a[0]):
                        args = [x for x in t.a[1:]]
                        preds.add((t.a[0], args.index(cv), args.index(want), args.index(f) if f in args else -1))
                        ok = True
                    if v is True and k.op == "zeq" and any(x.op == "call" and x.a[0] in ("ellcard", "ellsea") and cv in x.a for x in atoms(k)) and want in atoms(k):
                        ok = True
                c.obligation(ok, "cm/%s/verified" % u.name, u.name, "a constructed curve is accepted without a test that it has the requested order",
                             s.path(), "%s" % u.name)
    for p, ci, oi, fi in sorted(preds):
        f = m.fn(p)
        sc = Scenario(m, method="METHOD_CM", seed_algo=0, field="FIELD_PRIME", prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)
        ip = sc.S.interp()
        vs = [mk("sym", "arg%d" % k) for k in range(len(f.dty) - 1)]
        e, n = vs[ci], vs[oi]
        q = vs[fi] if fi >= 0 else mk("call", "ellff_get_p", e)
        fns.add(p)
        for o in ip.run(p, vs, State()):
            if o.kind != "ret" or not ip.assume(o.st, ip.icmp("ne", o.val, ZERO), True):
                continue
            c.obligation(conclusive(ip, o.st, e, n, q, vs), "cm/test/%s" % p, p, "the test whether a curve has the requested order is inconclusive", o.st.path(), p)


def tested(k, v):
    """the call whose truth the fact states"""
    if v is True and k.op == "bool":
        return k
    for x in atoms(k):
        if x.op == "call":
            if k.op in ("eq", "icmp", "ne") or k is x:
                return x
    return None


def conclusive(ip, s, e, n, q, vs):
    """#E = n follows: counted; or a random point has n P = O but t P != O for the order t = 2q + 2 - n of the twist, and there is no other
    twist (j != 0, 1728)"""
    card = mk("call", "ellcard", e)
    if ip.decide(s, mk("zeq", pcanon(psub(card, n))[0])) is True:
        return True
    isinf, notinf = set(), set()
    for k, v in s.facts.items():
        for x in atoms(k):
            if x.op == "call" and x.a[0] == "ellmul" and x.a[1] is e and (k.op in ("bool", "eq", "zeq", "icmp", "inf") or True):
                val = infval(k, v, x)
                if val is True:
                    isinf.add(x)
                elif val is False:
                    notinf.add(x)
    tw = {padd(pscale(v, 2), psub(z(2), n)) for v in vs} | {psub(pscale(padd(v, z(1)), 2), n) for v in vs}
    generic = [k for k, v in s.facts.items() if v is False and k.op == "zeq" and any(x.op == "call" and x.a[0] == "ell_j" or "get_j" in str(x.a[:1]) for x in atoms(k))]
    for x in notinf:
        if x.a[3] in tw and len(generic) >= 2 and any(y.a[3] is n and y.a[2] is x.a[2] for y in isinf):
            return True
    return False


def infval(k, v, x):
    return v if isinstance(v, bool) else None


def twist(c, m, fns):
    """an order derived for a twist from the order of the original curve is 2q + 2 - n"""
    f = m.fn("twist_rand_to")
    if f is None or len(f.dty) != 3:
        return
    fns.add("twist_rand_to")
    for ty in (1, 5):
        ip = Scenario(m, method=0, seed_algo=0, field="FIELD_PRIME", prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0).S.interp()
        to, of = mk("sym", "to"), mk("sym", "of")
        st = State()
        fld, n = mk("ld", ptradd(of, m.off("curve_t", "field"))), mk("ld", ptradd(of, m.off("curve_t", "order")))
        if not ip.assume(st, ip.icmp("eq", ip.binop("lshr", ip.load(st, fld), I(57), 64), I(ty)), True) or not ip.assume(st, ip.icmp("ne", n, ZERO), True):
            continue
        for o in ip.run("twist_rand_to", [to, of], st):
            if o.kind != "ret":
                continue
            got = ip.load(o.st, ptradd(to, m.off("curve_t", "order")))
            if got is mk("ld", ptradd(to, m.off("curve_t", "order"))) or got is ZERO:
                continue
            if ty == 1:
                ok = got is psub(padd(pscale(fld, 2), z(2)), n)
            else:
                r = psub(padd(got, n), z(2))
                ok = any(x.op == "call" and x.a[0] in ("int2n", "powuu", "shifti") for x in atoms(r)) and any(x.op == "call" and "degree" in str(x.a[0]) for x in atoms(r)) and pdiv_exact_const(r, 2) is not None
            c.obligation(ok, "twist/derived-order/%s" % ("prime" if ty == 1 else "binary"), "twist_rand_to",
                         "the order derived for the twist is not 2q + 2 - n: %s" % pretty(got)[:160], o.st.path(), "twist order")


if __name__ == "__main__":
    main("P07", __doc__, rule)
