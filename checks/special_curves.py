"""special-curves: the anomalous and supersingular methods construct curves of trace one and zero.

The field and equation stages wired for --anomalous and --supersingular are interpreted; from every accepting state the formulas of the
modulus and of the coefficients and the conditions of the path are taken.  By complex multiplication a curve over F_p has p points iff
its j-invariant is the one of a discriminant -D of class number one with 4p = 1 + D y^2 and it is the right one of the two twists; it has
p + 1 points iff p is inert in the field its j-invariant belongs to.  These identities (modulus, j-invariant, twist class, inertness) are
tested on the extracted formulas at sample points that satisfy the conditions of the path."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
from evalt import *
from field_truth import anomalous_table, base_path

# D: (j-invariant, alpha): over F_p with 4p = 1 + D y^2 the curve 3c^2k, 2c^3k (k = j / (1728 - j)) has p points iff (c / p) = -(alpha / p)
CM = {11: (-32 ** 3, 21), 19: (-96 ** 3, 3), 43: (-960 ** 3, 70), 67: (-5280 ** 3, 35805), 163: (-640320 ** 3, 3717878010)}
RND = {"genrand", "randomi", "random_bits", "randomprime", "ffrandom"}


def tables(m):
    init = anomalous_table(m)

    def extra(t, ev):
        if init is None or t.op != "ld":
            return None
        bp = base_path(t)
        if bp is None or bp[0] is not init[0]:
            return None
        g, st, ip = init
        v = g
        for o in bp[1]:
            v = ip.load(st, ptradd(v, o))
        return v.a[0] if v.op == "z" else None
    return extra


def holds(ev, st, skip=()):
    """can the conditions of the path hold at this point (those that can be evaluated)"""
    n = 0
    for f, v in st.facts.items():
        try:
            if bool(ev(f)) != v:
                return False, n
            n += 1
        except (Unknown, ValueError, ZeroDivisionError, TypeError, KeyError):
            pass
    return True, n


def leaves(t):
    """the values a formula is computed from that are not themselves computed"""
    return [x for x in atoms(t) if x.op in ("ld", "lp") or x.op == "call" and x.a[0] in RND | {"nextprime", "polclass", "FpX_roots", "polrootsmod", "FpX_oneroot"}]


def outermost(xs):
    return [x for x in xs if not any(x is not y and x in atoms(y) for y in xs)]


# ----------------------------------------------------------------------------- anomalous
def anomalous(c, m):
    sc = Scenario(m, method="METHOD_ANOMALOUS", field="FIELD_PRIME", **BASE)
    ex = tables(m)
    F = mk("ld", ptradd(CUR, m.off("curve_t", "field")))
    n = 0
    Ds = set()
    for u in sc.units(FIELD):
        for st in sc.accepted(u):
            f = sc.ip.reify(st, sc.cur(st, "field"))
            n += 1
            D = norm_form(sc, f, ex)
            if D is None:
                c.ok("field/undecided")
                continue
            c.obligation(D is not False, "anomalous/field", u.name, "the primes chosen do not satisfy 4p = 1 + D y^2 for a discriminant of class number one", st.path())
            if D:
                Ds.add(D)
    if len(Ds) != 1:
        return n
    D = Ds.pop()
    j0, al = CM[D]
    for u in sc.units(B) + sc.units(A):
        for st in sc.accepted(u):
            a, b = sc.cur(st, "a"), sc.cur(st, "b")
            if a.op == "ld" and base_of(a.a[0]) is CUR or b.op == "ld" and base_of(b.a[0]) is CUR:
                continue
            n += 1
            sample(c, sc, u, st, a, b, F, D, j0, al, ex)
    return n


def norm_form(sc, f, ex):
    """D if 4 f = 1 + D y^2 as a polynomial identity in what f is computed from; False if it is not; None if the formula is not understood"""
    draws = outermost([x for x in atoms(f) if x.op == "call" and x.a[0] in RND or x.op == "lp"])
    if len(draws) != 1:
        return None
    vals = []
    try:
        for k in (1, 2, 3, 7, 10, 1001, 12345678901, 98765432109876543):
            vals.append(integer(Eval({draws[0]: k}, ex)(f)))
    except (Unknown, ValueError, ZeroDivisionError, TypeError):
        return None
    for D in CM:
        if all((4 * v - 1) % D == 0 and isqrt_exact((4 * v - 1) // D) is not None for v in vals):
            return D
    return False


def primes_of(D, rnd, bits):
    while True:
        y = rnd.getrandbits(bits // 2) | 1
        p = 1 + D * y * y
        if p % 4 == 0 and is_prime(p // 4):
            return p // 4


def special_primes(D, ex, st):
    """primes of the form that divide a constant of the tables"""
    res = set()
    for f in st.facts:
        for x in atoms(f):
            v = ex(x, None) if x.op == "ld" else x.a[0] if x.op == "z" else None
            if v and abs(v) > 1 and abs(v) < 1 << 70:
                for p in factor(v):
                    if (4 * p - 1) % D == 0 and isqrt_exact((4 * p - 1) // D) is not None and p > 3:
                        res.add(p)
    return sorted(res)


def sample(c, sc, u, st, a, b, F, D, j0, al, ex):
    rnd = random.Random(20)
    done = tried = 0
    todo = special_primes(D, ex, st)
    lv = outermost([x for f in list(st.facts) + [a, b] for x in atoms(f) if x.op == "call" and x.a[0] in RND or x.op == "lp"])
    lv = list(dict.fromkeys(lv))
    while done < 24 and tried < 400:
        tried += 1
        p = todo.pop() if todo else primes_of(D, rnd, rnd.choice((24, 40, 64, 128)))
        env = {F: p}
        for x in lv:
            env[x] = rnd.randrange(1, p)
        ev = Eval(env, ex)
        if not holds(ev, st)[0]:
            continue
        try:
            va, vb = ev(a), ev(b)
            va = va.v if isinstance(va, Mod) else integer(va) % p
            vb = vb.v if isinstance(vb, Mod) else integer(vb) % p
        except (Unknown, ValueError, ZeroDivisionError, TypeError):
            c.ok("anomalous/undecided")
            return
        done += 1
        if va == 0 or vb == 0 or (4 * va ** 3 * (1728 - j0) - 27 * vb ** 2 * j0) % p:
            c.bad("anomalous/j", u.name, "the curve does not have the j-invariant %d of discriminant -%d (for instance modulo %d)" % (j0, D, p), st.path())
            return
        cc = 3 * vb * pow(2 * va, -1, p)
        if jacobi(cc * al % p, p) != -1:
            c.bad("anomalous/twist", u.name, "the curve can be the wrong twist, with p + 2 points (for instance modulo %d)" % p, st.path())
            return
    c.ok("anomalous/j")
    c.ok("anomalous/twist")


# ------------------------------------------------------------------------- supersingular
def supersingular(c, m):
    sc = Scenario(m, method="METHOD_SUPERSINGULAR", field="FIELD_PRIME", **BASE)
    F = mk("ld", ptradd(CUR, m.off("curve_t", "field")))
    n = 0
    for u in sc.units(B) + sc.units(A):
        loopvals = {}
        sc.ip.on_backedge = lambda ip, le, st, ph, tag: [loopvals.setdefault((le.uid, k), []).append(v) for k, v in list(ph.items()) + list(le.phi.items())]
        sts = sc.accepted(u)
        sc.ip.on_backedge = None
        for st in sts:
            a, b = sc.ip.reify(st, sc.cur(st, "a")), sc.ip.reify(st, sc.cur(st, "b"))
            if a.op == "ld" and base_of(a.a[0]) is CUR or b.op == "ld" and base_of(b.a[0]) is CUR:
                continue
            n += 1
            inert(c, sc, u, st, a, b, F, loopvals)
    return n


def lp_prime(x, loopvals, d=0):
    """does a loop variable only ever hold primes"""
    vs = loopvals.get((x.a[0], x.a[1])) if len(x.a) > 1 else None
    if not vs or d > 3:
        return False
    for v in vs:
        if v is x or v.op == "z" and is_prime(v.a[0]) or v.op == "call" and v.a[0] in ("nextprime", "randomprime", "precprime"):
            continue
        if v.op == "lp" and lp_prime(v, loopvals, d + 1):
            continue
        return False
    return True


def inert(c, sc, u, st, a, b, F, loopvals):
    rnd = random.Random(21)
    terms = list(st.facts) + [a, b]
    roots = list(dict.fromkeys(x for t in (a, b) for x in atoms(t) if x.op == "ld" and any(y.op == "call" and y.a[0] == "polclass" for y in atoms(x))
                               or x.op == "call" and x.a[0] in ("FpX_oneroot", "polrootsmod")))
    roots = [r for r in roots if not any(r is not y and y in atoms(r) for y in roots)]
    free = list(dict.fromkeys(x for t in terms for x in atoms(t) if x.op == "lp" or x.op == "call" and x.a[0] in RND | {"nextprime"}))
    free = [x for x in free if x.op != "call" or x.a[0] != "nextprime" or True]
    done = tried = 0
    facts = [(f, v) for f, v in st.facts.items()]
    small = [k for k in range(3, 200)]
    while done < 30 and tried < 6000:
        tried += 1
        p = 0
        while not is_prime(p):
            p = rnd.getrandbits(rnd.choice((8, 12, 20, 32, 64))) | 1
        if p < 5:
            continue
        env = {F: p}
        for x in free:
            pr = x.op == "call" or lp_prime(x, loopvals)
            k = rnd.choice(small) if rnd.random() < 0.8 else 3
            while pr and not is_prime(k):
                k = rnd.choice(small)
            env[x] = k
        R = rnd.randrange(1, p)
        for r in roots:
            env[r] = R
        ev = Eval(env)
        ok, _ = holds(ev, st)
        if not ok or R == 1728 % p:
            continue
        try:
            va, vb = ev(a), ev(b)
            va = va.v if isinstance(va, Mod) else integer(va) % p
            vb = vb.v if isinstance(vb, Mod) else integer(vb) % p
        except (Unknown, ValueError, ZeroDivisionError, TypeError):
            c.ok("supersingular/undecided")
            return
        done += 1
        where = "(for instance modulo %d)" % p
        if not roots:
            disc = (4 * va ** 3 + 27 * vb ** 2) % p
            if not disc:
                c.bad("supersingular/singular", u.name, "the curve is singular " + where, st.path())
                return
            if vb == 0:
                good, why = p % 4 == 3, "a curve with b = 0 is taken although p is not 3 modulo 4"
            elif va == 0:
                good, why = p % 3 == 2, "a curve with a = 0 is taken although p is not 2 modulo 3"
            else:
                j = 1728 * 4 * va ** 3 * pow(disc, -1, p) % p
                good = any(j == v[0] % p and jacobi(-D, p) == -1 for D, v in CM.items())
                why = "the curve is not supersingular"
            if not good:
                c.bad("supersingular/special", u.name, why + " " + where, st.path())
                return
            continue
        for x in {y for r in roots for y in atoms(r) if y.op == "call" and y.a[0] == "polclass"}:
            try:
                D = integer(ev(x.a[1]))
            except (Unknown, ValueError):
                c.ok("supersingular/undecided")
                return
            if D >= 0 or D % 4 not in (0, 1):
                c.bad("supersingular/discriminant", u.name, "%d is not a negative discriminant" % D, st.path())
                return
            if jacobi(D, p) != -1:
                c.bad("supersingular/inert", u.name, "p splits in the quadratic field of discriminant %d: the curve is ordinary %s" % (D, where), st.path())
                return
            if not (is_prime(-D) or D in (-4, -8, -16) or D % 16 == 4 and is_prime(-D // 4)):
                c.bad("supersingular/root", u.name, "the class number of discriminant %d can be even: the class polynomial may have no root modulo p %s" % (D, where), st.path())
                return
        if (4 * va ** 3 * (1728 - R) - 27 * vb ** 2 * R) % p or va == 0 and R or vb == 0 and R != 1728 % p:
            c.bad("supersingular/j", u.name, "the curve does not have the chosen root of the class polynomial as j-invariant %s" % where, st.path())
            return
    if done:
        c.ok("supersingular/j")
    else:
        c.ok("supersingular/impossible")


BASE = dict(hex_check=0, prime=0, smooth=0, cofactor=0, unique=0, seed_algo=0, koblitz=0, random=2)


def rule(c):
    m = load_module()
    n1, n2 = anomalous(c, m), supersingular(c, m)
    c.cov.update(accepting_states_anomalous=n1, accepting_states_supersingular=n2)


if __name__ == "__main__":
    main("P13", __doc__, rule)
