"""metadata-truth: the metadata recorded for a curve are those of that curve.

For every class of command lines with --metadata the wired metadata stage is interpreted on an arbitrary curve over a prime and over a binary field.  In
every accepting state: j-invariant and discriminant are those of the recorded curve, written as field elements; the trace of Frobenius is
q + 1 - n; the embedding degree is the multiplicative order of p modulo n, asked for only if p does not divide n, and 0 otherwise; CM discriminant
and conductor are the two parts of t^2 - 4q.  Without --metadata nothing is computed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
from order_requests import METHODS

NAMES = ("j_invariant", "discriminant", "embedding_degree", "frobenius_trace", "cm_discriminant", "conductor")


class J:
    def __init__(self, sc):
        self.sc, self.m, self.ip = sc, sc.m, sc.ip
        ld = lambda n: mk("ld", ptradd(CUR, self.m.off("curve_t", n)))
        self.E, self.N, self.F = ld("curve"), ld("order"), ld("field")

    def meta(self, st, n):
        o = self.m.off("curve_t", "meta") + self.m.off("metadata_t", n)
        return self.ip.load(st, ptradd(CUR, o))

    def state(self, u, binary):
        ip, st = self.ip, self.sc.S.curve_state(u)
        T_ = lambda x, t: ip.assume(st, ip.icmp("eq", mk("typ", x), I(t)), True)
        T_(self.F, 5 if binary else 1)
        for n in ("ell_j", "ell_disc"):
            T_(mk("call", n, self.E), 5 if binary else 3)
        if not binary:
            st.facts[mk("bool", "isprime", self.F)] = True
        # nothing has been recorded yet
        for n in NAMES:
            ip.store(st, ptradd(CUR, self.m.off("curve_t", "meta") + self.m.off("metadata_t", n)), ZERO)
        return st

    def element(self, st, x, v, binary):
        """v is the integer that represents the field element x"""
        ip = self.ip
        forms = [mk("call", "lift", x)] if not binary else []
        f = self.m.fn("field_elementi")
        if f is not None:
            forms += [o.val for o in ip.run(f.name, [x], st.copy()) if o.kind == "ret"]
        return any(v is y for y in forms)


def rule(c):
    m = load_module()
    done = {}
    base = dict(hex_check=0, prime=0, smooth=0, cofactor=0, unique=0, koblitz=0)
    scs = [(n, dict(base, **mo, field=f)) for n, mo in METHODS for f in ("FIELD_PRIME", "FIELD_BINARY")]
    scs += [("twist", dict(base, method="METHOD_TWIST", seed_algo=0, field=f)) for f in ("FIELD_PRIME", "FIELD_BINARY")]
    scs.append(("cm", dict(base, method="METHOD_CM", seed_algo=0, field="FIELD_PRIME")))
    for name, o in scs:
        for on in (1, 0):
            sc = Scenario(m, metadata=on, **o)
            binary = o["field"] == "FIELD_BINARY"
            j = J(sc)
            units = sc.units(META)
            if on:
                c.obligation(len(units) == len(sc.full()) or not sc.full(), "wired", name, "no metadata stage is wired although metadata are asked for (%s)" % sc)
            for u in units:
                key = (u.name, binary, on)
                if key in done:
                    continue
                st0 = j.state(u, binary)
                sts = sc.accepted(u, st0)
                done[key] = len(sts)
                for s in sts:
                    judge(c, sc, j, u, s, binary, on)
                if on:
                    c.obligation(len(sts) > 0, "accepts", u.name, "the metadata stage never succeeds (%s)" % sc, None, "succeeds")
    c.cov.update(generators=len(done), states=sum(done.values()))


def judge(c, sc, j, u, s, binary, on):
    v = {n: j.meta(s, n) for n in NAMES}
    lab = "binary field" if binary else "prime field"
    P = s.path()
    if not on:
        for n in NAMES:
            c.obligation(v[n] is ZERO, "unasked/" + n, u.name, "%s is recorded although no metadata were asked for (%s)" % (n, lab), P, lab)
        return
    for n, x in (("j_invariant", "ell_j"), ("discriminant", "ell_disc")):
        c.obligation(j.element(s, mk("call", x, j.E), v[n], binary), n, u.name,
                     "the recorded %s is not that of the curve: %s (%s)" % (n, pretty(v[n])[:100], lab), P, lab)
    q = j.F
    ok = False
    qs = [j.F]
    if binary:
        mods = [mk("call", n, j.F) for n in ("FF_mod", "member_mod", "FF_to_FpXQ")]
        degs = [mk("call", "degree", x) for x in mods[:2]] + [j.ip.add(mk("lg", x), I(-3)) for x in mods[:2]] + [mk("call", "FF_f", j.F)]
        qs = [mk("call", "int2n", d) for d in degs] + [mk("call", "FF_q", j.F), mk("call", "int2n", j.sc.cfg(s, "bits"))]
    for q in qs:
        t = psub(padd(q, z(1)), j.N)
        if sc.eq(s, v["frobenius_trace"], t):
            ok = True
            break
    c.obligation(ok, "frobenius_trace", u.name, "the recorded trace of Frobenius is not q + 1 - n: %s (%s)" % (pretty(v["frobenius_trace"])[:120], lab), P, lab)
    if binary:
        # neither is defined (or computed) over a binary field
        for n in ("embedding_degree", "cm_discriminant", "conductor"):
            c.obligation(v[n] is ZERO, "binary/" + n, u.name, "%s is recorded for a curve over a binary field: %s" % (n, pretty(v[n])[:100]), P, n)
        return
    p, n, e = j.F, j.N, v["embedding_degree"]
    coprime = s.facts.get(mk("bool", "dvdii", n, p)) is False or sc.eq(s, mk("call", "gcd", n, p), z(1))
    for g in ("gcdii", "ggcd"):
        for x in ((n, p), (p, n)):
            if s.facts.get(mk("zeq", pcanon(psub(mk("call", g, *x), z(1)))[0])) is True:
                coprime = True
    if e.op == "z":
        divides = s.facts.get(mk("bool", "dvdii", n, p)) is True or sc.eq(s, n, p) or \
            any(s.facts.get(mk("zeq", pcanon(psub(mk("call", g, *x), z(1)))[0])) is False for g in ("gcdii", "ggcd") for x in ((n, p), (p, n)))
        c.obligation(e.a[0] == 0 and divides, "embedding/none", u.name, "the embedding degree is recorded as %s for an order that p need not divide" % pretty(e), P, "p divides n")
    else:
        zn = e.op == "call" and e.a[0] in ("znorder", "order") and e.a[1].op == "vec" and e.a[1].a[0] == 3
        good = zn and e.a[1].a[1] is n and sc.eq(s, e.a[1].a[2], p) and e.a[2] is ZERO
        good = good or zn and e.a[1].a[1] is n and e.a[1].a[2].op == "mod" and e.a[1].a[2].a[0] is p and e.a[2] is ZERO
        c.obligation(good, "embedding", u.name, "the recorded embedding degree is not the order of p modulo n: %s" % pretty(e)[:120], P, "order of p modulo n")
        if good:
            c.obligation(coprime, "embedding/defined", u.name,
                         "the order of p modulo n is asked for although p may divide n, which ends the program", P, "p does not divide n")
    d = psub(pmul(t, t), pscale(p, 4))
    D, f = v["cm_discriminant"], v["conductor"]

    def part(x, k):
        if x.op == "ld":
            b, o = split(x.a[0])
            return b.op == "call" and b.a[0] in ("coredisc2", "coredisc0") and o == 8 * k and sc.eq(s, b.a[1], d)
        return k == 1 and x.op == "call" and x.a[0] == "coredisc" and sc.eq(s, x.a[1], d)
    c.obligation(part(D, 1), "cm_discriminant", u.name, "the recorded CM discriminant is not that of t^2 - 4p: %s" % pretty(D)[:140], P, "coredisc2(t^2-4p)[1]")
    c.obligation(part(f, 2), "conductor", u.name, "the recorded conductor is not that of t^2 - 4p: %s" % pretty(f)[:140], P, "coredisc2(t^2-4p)[2]")


if __name__ == "__main__":
    main("P11", __doc__, rule)
