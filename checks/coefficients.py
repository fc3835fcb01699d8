"""coefficients: the recorded coefficients a and b are elements of the recorded field, in reduced form.

For every class of command lines each wired generator that records a coefficient is interpreted on an arbitrary field; in every accepting
state the recorded value must be an element of the field recorded in that state: a residue modulo the recorded prime or an element of the
recorded binary field (however it was computed from such elements), or an integer known to lie between 0 and p - 1 (a remainder, a lifted
element, a random integer below p, 0, 1).  An integer that nothing reduces, or an element of another field, is printed as it is and is then
not the coefficient of a curve over the field shown."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from absint import Outcome
from models import G
from curve_model import scenarios, typeassume

ELEM, INT, OTHER, UNKNOWN = "element", "integer", "other field", "unknown"
INTS = {"int2n", "int2u", "stoi", "utoi", "bits_to_i", "strtoi", "randomprime", "nextprime", "precprime", "sqrtint", "addii", "mulii", "shifti",
        "FF_order", "binomial", "gceil", "gfloor"}
READ = {"lift", "centerlift0"}


def kind(sc, s, x, f, d=0):
    """is x an element of the field f in reduced form?"""
    K = lambda y: kind(sc, s, y, f, d + 1)
    if d > 40 or not isinstance(x, T):
        return UNKNOWN
    if x.op == "z":
        return ELEM if x.a[0] in (0, 1) else INT
    if x.op == "vec" and x.a[0] == 3 and len(x.a) == 3:
        if x.a[2].op == "call" and x.a[2].a[0] == "unreduced":
            return INT
        return ELEM if x.a[1] is f or sc.eq(s, x.a[1], f) else OTHER if x.a[1].op in ("z", "P", "call") and f.op == "ld" else UNKNOWN
    if x.op == "mod":
        return ELEM if x.a[1] is f or sc.eq(s, x.a[1], f) else INT
    if x.op in ("P", "inv", "mul", "add", "sub", "pow"):
        # arithmetic with an element gives an element of the same field
        if x.op == "P":
            ks = [max([K(y) for y, e in mono], key=RANK.get, default=INT) for mono, c in x.a[0]]
            ks = [k if k != ELEM or any(elem_type(sc, s, y, f) for y, e in mono) else INT for k, (mono, c) in zip(ks, x.a[0])]
        else:
            ks = [K(y) for y in x.a if isinstance(y, T)]
        return combine(ks)
    if x.op == "call":
        n, a = x.a[0], [y for y in x.a[1:] if isinstance(y, T)]
        if n == "genrand" and a:
            if a[0] is f or sc.eq(s, a[0], f):
                return ELEM
            return INT if a[0].op in ("vec", "z", "P") or a[0].op == "call" and a[0].a[0] in INTS else UNKNOWN
        if n.startswith(("Fp_", "Fq_")) and a:
            return ELEM if a[-1] is f or sc.eq(s, a[-1], f) else UNKNOWN
        if n.startswith(("ell_a", "ell_get_a")) and a:
            c = a[0]
            if c.op == "call" and c.a[0] == "ellinit":
                return ELEM if c.a[2] is f or sc.eq(s, c.a[2], f) else OTHER if f.op == "ld" and c.a[2].op == "ld" else UNKNOWN
            return UNKNOWN
        if n in ("exdiv", "gdiv"):
            return combine([K(y) for y in a])
        if n == "lift":
            return K(a[0])
        if n in INTS:
            return INT
    return UNKNOWN


RANK = {INT: 0, ELEM: 1, UNKNOWN: 2, OTHER: 3}


def raw_mod(ip, v, st, uid, i):
    """mkintmod reduces nothing: the integer it is given has to be a residue already"""
    x, m = G(ip, st, v[0]), G(ip, st, v[1])
    if x.op == "mod" and x.a[1] is m:
        x = x.a[0]
    elif x.op == "P" and any(mono and (abs(c) > 1 or sum(e for y, e in mono) > 1) for mono, c in x.a[0]):
        x = mk("call", "unreduced", x)      # a product or multiple, which nothing bounds by the modulus
    return [Outcome("ret", mk("vec", 3, m, x), st)]


def elem_type(sc, s, y, f):
    """an element proper (not merely a reduced integer): the product of reduced integers is not reduced"""
    if y.op == "vec":
        return True
    if y.op in ("inv", "exdiv"):
        return any(elem_type(sc, s, z_, f) for z_ in y.a if isinstance(z_, T))
    if y.op == "call" and y.a[0] in ("exdiv", "gdiv"):
        return any(elem_type(sc, s, z_, f) for z_ in y.a[1:] if isinstance(z_, T))
    if y.op == "call" and (y.a[0].startswith(("ell_a", "ell_get_a")) or y.a[0] in ("Fq_to_FF", "Fp_to_mod", "gmodulo")):
        return True
    if y.op == "P":
        return any(elem_type(sc, s, v, f) for mono, c in y.a[0] for v, e in mono)
    return False


def combine(ks):
    if OTHER in ks:
        return OTHER
    if UNKNOWN in ks:
        return UNKNOWN
    return ELEM if ELEM in ks else INT


def rule(c):
    m = load_module()
    n, und, fns = 0, 0, set()
    todo = list(scenarios(m))
    todo += [("koblitz", f, dict(o, koblitz=1, koblitz_value=v)) for nm, f, o in todo if nm == "normal" for v in (0, 1)]
    for name, field, o in todo:
        sc = Scenario(m, **o)
        sc.ip.hooks["mkintmod"] = raw_mod
        if name == "cm":
            sc.abstract()
        sets = {}
        for stage in (A, B, CURVE):
            units = sc.units(stage) if name != "invalid" else [u for r in sc.S.runs for u in sc.S.units(r, stage) if u.gen.op == "F"]
            seen = set()
            for u in units:
                if u.name in seen or u.name == "gen_skip":
                    continue
                seen.add(u.name)
                st = sc.S.curve_state(u)
                typeassume(sc, st, field)
                a0, b0 = sc.cur(st, "a"), sc.cur(st, "b")
                some, every = set(), None
                for out in sc.outcomes(u, st):
                    if out.kind != "ret" or not sc.ip.assume(out.st, sc.ip.icmp("eq", out.val, ONE), True):
                        continue
                    s = out.st
                    f = sc.cur(s, "field")
                    now = {nm for nm, old in (("a", a0), ("b", b0)) if sc.cur(s, nm) is not old}
                    some, every = some | now, now if every is None else every & now
                    for nm, old in (("a", a0), ("b", b0)):
                        x = sc.cur(s, nm)
                        if x is old:
                            continue
                        fns.add(u.name)
                        n += 1
                        k = kind(sc, s, x, f)
                        if k == UNKNOWN:
                            und += 1
                            if os.environ.get('V'): print(name, field, u.name, nm, pretty(x)[:300])
                            continue
                        c.obligation(k == ELEM, "%s/%s/%s" % (name, u.name, nm), u.name, "the recorded coefficient %s is not a reduced element of the "
                                     "recorded field (%s: %s; %s, %s)" % (nm, k, pretty(x)[:160], name, field), s.path(),
                                     "%s, %s: %s" % (name, field, pretty(x)[:160]))
                if every is not None and stage != CURVE:
                    sets[u.name] = some
                    c.obligation(some == every, "%s/%s/always" % (name, u.name), u.name, "the coefficient %s is recorded on some successful paths only (%s, %s)" %
                                 (" and ".join(sorted(some - every)), name, field), [], "%s, %s" % (name, field))
        if sets:
            all_ = set().union(*sets.values())
            c.obligation(len(all_) != 1, "%s/%s/both" % (name, "+".join(sorted(sets))), sorted(sets)[0], "no stage records the coefficient %s (%s, %s)" %
                         (" and ".join(sorted({"a", "b"} - all_)), name, field), [], "%s, %s" % (name, field))
    c.cov["functions"] = sorted(fns)
    c.cov["paths"] = n
    c.cov["undecided"] = und
    c.require(n >= 10, "only %d recorded coefficients were found" % n)


if __name__ == "__main__":
    main("P19", __doc__, rule)
