"""curve-model: the curve object computed with is the non-singular curve of the recorded field and coefficients.

For every class of command lines the wired curve stage (generator and checks) is interpreted on an arbitrary field and arbitrary
coefficients.  In every accepting state the curve object must be the initialised curve over the recorded field whose coefficient vector is
[a, b] (y^2 = x^3 + ax + b, prime field) or [1, a, 0, 0, b] (y^2 + xy = x^3 + ax^2 + b, binary field) for the recorded a and b - or the
recorded a and b are read back from the very curve object - and its discriminant (or its emptiness, PARI's mark of a singular curve) must
have been tested.  The twist method must record the twist of the generated curve."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from order_requests import METHODS

T_INT, T_FFELT = 1, 5


def scenarios(m):
    for name, mo in METHODS + [("cm", dict(method="METHOD_CM", prime=0)), ("invalid", dict(method="METHOD_INVALID", threads=1))]:
        for field in ("FIELD_PRIME", "FIELD_BINARY"):
            if field == "FIELD_BINARY" and name not in ("normal", "ansi", "twist", "invalid"):
                continue
            yield name, field, dict(mo, field=field, prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)


def typeassume(sc, st, field, value=None):
    f = value or mk("ld", ptradd(CUR, sc.m.off("curve_t", "field")))
    t = sc.ip.binop("lshr", sc.ip.load(st, f), I(57), 64)
    return sc.ip.assume(st, sc.ip.icmp("eq", t, I(T_INT if field == "FIELD_PRIME" else T_FFELT)), True)


def lifted(x):
    return x


def model_ok(sc, s, field, cv, f, a, b):
    """cv is the curve over f with the coefficients a, b"""
    if not (cv.op == "call" and cv.a[0] == "ellinit"):
        return False, "it is not the result of initialising a curve"
    if cv.a[2] is not f:
        return False, "it is not over the recorded field"
    v = cv.a[1]
    k = "a4" if field == "FIELD_PRIME" else "a2"
    if a in (mk("call", "ell_" + k, cv), mk("call", "ell_get_" + k, cv)) and b in (mk("call", "ell_a6", cv), mk("call", "ell_get_a6", cv)):
        return True, ""
    if v.op != "vec":
        return False, "its coefficients are not the recorded ones (%s)" % pretty(v)[:80]
    want = [a, b] if field == "FIELD_PRIME" else [z(1), a, z(0), z(0), b]
    alt = [z(0), z(0), z(0), a, b] if field == "FIELD_PRIME" else want
    got = list(v.a[1:])
    if any(len(got) == len(w) and all(x is y for x, y in zip(got, w)) for w in (want, alt)):
        return True, ""
    return False, "its coefficient vector is %s" % pretty(v)[:160]


def nonsingular(sc, s, cv):
    """PARI marks a singular curve by returning an empty vector instead of a curve; a twist and a curve with given j are never singular"""
    if sc.ip.decide(s, sc.ip.icmp("eq", mk("lg", cv), I(1))) is False:
        return True
    if cv.op == "call" and cv.a[0] == "ellinit" and cv.a[1].op == "call" and cv.a[1].a[0] in ("elltwist", "ellfromj"):
        return True
    return False


def rule(c):
    m = load_module()
    n, fns = 0, set()
    for name, field, o in scenarios(m):
        sc = Scenario(m, **o)
        if name == "cm":
            sc.abstract()
        units = sc.units(CURVE) if name != "invalid" else [u for r in sc.S.runs if r.start is not ZERO or r.end is not I(9)
                                                            for u in sc.S.units(r, CURVE) if u.gen.op == "F"]
        seen = set()
        for u in units:
            key = (u.name, tuple(x for x, _ in sc.checks(u)))
            if key in seen or u.name == "gen_skip":
                continue
            seen.add(key)
            st = sc.S.curve_state(u)
            typeassume(sc, st, field)
            acc = sc.accepted(u, st)
            fns |= {u.name} | {x for x, _ in sc.checks(u)}
            lab = "%s, %s" % (name, field)
            c.obligation(bool(acc), "%s/%s/reachable" % (name, u.name), u.name, "no curve is ever accepted (%s)" % lab)
            for s in acc:
                n += 1
                f, a, b, cv = (sc.cur(s, x) for x in ("field", "a", "b", "curve"))
                ok, why = model_ok(sc, s, field, cv, f, a, b)
                c.obligation(ok, "%s/%s/model" % (name, u.name), u.name, "the curve object is not the recorded curve: %s (%s)" % (why, lab), s.path(),
                             "%s: %s" % (lab, pretty(cv)[:160]))
                c.obligation(nonsingular(sc, s, cv), "%s/%s/nonsingular" % (name, u.name), u.name, "a singular curve may be accepted (%s)" % lab, s.path())
                if name == "twist":
                    tw = [x for x in atoms(cv) if x.op == "call" and x.a[0] == "elltwist"]
                    f0, a0, b0 = (mk("ld", ptradd(CUR, m.off("curve_t", x))) for x in ("field", "a", "b"))
                    good = len(tw) == 1 and cv.a[1] is tw[0] and tw[0].a[2] is ZERO and model_ok(sc, s, field, tw[0].a[1], f0, a0, b0)[0]
                    c.obligation(good, "twist/%s/twisted" % u.name, u.name, "the recorded curve is not the quadratic twist of the generated one (%s)" % pretty(cv)[:200], s.path())
                elif any(x.op == "call" and x.a[0] == "elltwist" for x in atoms(cv)) and name not in ("cm",):
                    c.bad("%s/%s/no-twist" % (name, u.name), u.name, "the recorded curve is a twist although none was asked for", s.path())
    c.cov["functions"] = sorted(fns)
    c.cov["paths"] = n
    c.require(n >= 10, "only %d accepting paths of the curve stage were found" % n)


if __name__ == "__main__":
    main("P06", __doc__, rule)
