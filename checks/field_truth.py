"""field-truth: the field of every curve is a field, of the requested kind and size.

For every class of command lines the generator that decides on the field is interpreted.  In every accepting state the recorded field must be
proved to be a prime (tested, or produced by a prime generator) of the requested number of bits - at most that many where it was read from
input -, or GF(2^m) for the requested m, given by an irreducible polynomial: tested, or found in a table.  The lookup is solved
for each of the sizes 2..10000: the exponents of the polynomial built from the table entry found must give an irreducible
polynomial of that degree (each one is tested by Rabin's criterion), an entry must exist, and the tables must be sorted."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from math import isqrt
from multiprocessing import Pool
from stages import *
from order_requests import METHODS
import gf2

BASE = dict(prime=0, smooth=0, cofactor=0, unique=0, koblitz=0, hex_check=0)
BINARY = ("normal", "twist", "ansi")


def bits(sc):
    return mk("ld", ptradd(CFG, sc.m.off("config_t", "bits")))


def pow2(ip, t):
    from models import MODELS
    return MODELS["int2n"](ip, [t], None, None, None)


def ge0(ip, s, t):
    """t >= 0 follows from the facts"""
    from models import sgn
    for q, k, v in ((t, "a", False), (padd(t, z(1)), "b", True)):
        for x, r in ((q, 1), (pneg(q), -1)):
            g = sgn(ip, x)
            # q >= 0 / q + 1 > 0
            if k == "a":
                d = ip.decide(s, ip.icmp("slt", g, ZERO) if r == 1 else ip.icmp("slt", ZERO, g))
                if d is False:
                    return True
            else:
                d = ip.decide(s, ip.icmp("slt", ZERO, g) if r == 1 else ip.icmp("slt", g, ZERO))
                if d is True:
                    return True
    return False


def is_prime(ip, s, f):
    if s.facts.get(mk("bool", "isprime", f)) is True or s.facts.get(mk("bool", "ispseudoprime", f)) is True:
        return True
    return f.op == "call" and f.a[0] in ("nextprime", "precprime", "randomprime")


# ------------------------------------------------------------------- size of a random prime
class Unknown(Exception):
    pass


def num(t, env, d=0):
    """value of a PARI integer term once the numbers in env are fixed"""
    if t in env:
        return env[t]
    if t.op in ("z", "i"):
        return t.a[0]
    if d > 60:
        raise Unknown
    N = lambda x: num(x, env, d + 1)
    if t.op == "P":
        r = 0
        for mono, c in t.a[0]:
            p = c
            for x, e in mono:
                p *= N(x) ** e
            r += p
        return r
    if t.op in ("add", "sub", "mul"):
        a, b = N(t.a[0]), N(t.a[1])
        return a + b if t.op == "add" else a - b if t.op == "sub" else a * b
    if t.op == "call":
        f, a = t.a[0], [x for x in t.a[1:] if isinstance(x, T)]
        if f == "int2n":
            return 1 << N(a[0]) if N(a[0]) >= 0 else 0
        if f in ("stoi", "utoi", "gfloor", "floori"):
            v = N(a[0])
            return v.floor() if isinstance(v, Quad) else v.__floor__() if not isinstance(v, int) else v
        if f == "gceil":
            v = N(a[0])
            return v.ceil() if isinstance(v, Quad) else v.__ceil__() if not isinstance(v, int) else v
        if f in ("exdiv", "fdiv", "floordiv", "gdiv"):
            x, y = N(a[0]), N(a[1])
            if isinstance(x, Quad):
                return x.over(y)
            return x // y if f != "fdiv" else x // y if x * y >= 0 else -(-x // y)
        if f == "gsqrt":
            return Quad(0, 1, N(a[0]), 1)
    raise Unknown


def probable_prime(n):
    if n < 4:
        return n in (2, 3)
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Quad:
    """(a + b sqrt(n)) / c, c > 0"""
    def __init__(s, a, b, n, c):
        s.a, s.b, s.n, s.c = a, b, n, c

    def __add__(s, k):
        if not isinstance(k, int):
            raise Unknown
        return Quad(s.a + k * s.c, s.b, s.n, s.c)
    __radd__ = __add__

    def __mul__(s, k):
        if not isinstance(k, int):
            raise Unknown
        return Quad(s.a * k, s.b * k, s.n, s.c)
    __rmul__ = __mul__

    def __pow__(s, e):
        if e != 1:
            raise Unknown
        return s

    def over(s, k):
        if not isinstance(k, int) or k <= 0:
            raise Unknown
        return Quad(s.a, s.b, s.n, s.c * k)

    def floor(s):
        if s.b < 0:
            raise Unknown
        return (s.a + isqrt(s.b * s.b * s.n)) // s.c

    def ceil(s):
        r = isqrt(s.b * s.b * s.n)
        if r * r == s.b * s.b * s.n:
            return -((-s.a - r) // s.c)
        return (s.a + r) // s.c + 1


def sized(c, sc, s, f, u, name, lab):
    """f is known to have exactly the requested number of bits"""
    ip, n = sc.ip, bits(sc)
    lo, hi = pow2(ip, ip.add(n, I(-1))), pow2(ip, n)
    if f.op == "call" and f.a[0] == "randomprime" and isinstance(f.a[1], T):
        r = f.a[1]
        if r.op == "vec" and len(r.a) == 3:
            return r.a[1] is lo and (r.a[2] is hi or r.a[2] is padd(hi, z(-1))), "drawn from %s" % pretty(r)[:100]
        return False, "drawn from %s" % pretty(r)[:100]
    if f.op == "call" and f.a[0] == "genrand" and isinstance(f.a[1], T) and f.a[1].op == "vec" and len(f.a[1].a) == 3:
        r = f.a[1]
        return r.a[1] is lo and (r.a[2] is hi or r.a[2] is padd(hi, z(-1))), "drawn from %s" % pretty(r)[:100]
    low, high = ge0(ip, s, psub(f, lo)), ge0(ip, s, psub(hi, f))
    if low and high:
        return True, ""
    about = sum(1 for k in s.facts if f in atoms(k) and k.op != "bool" and not any(x.op == "typ" or x.op in ("call", "mod") and str(x.a[0]) in ("typ", "mod", "kronecker")
                                                                               or x.op == "mod" for x in atoms(k)))
    if n not in atoms(f) and about <= int(low) + int(high) and not any(x.op == "lp" for x in atoms(f) if x is f):
        return False, "nothing keeps it %s" % ("below 2^bits" if low else "from being shorter" if high else "within bounds")
    draws = [x for x in atoms(f) if x.op == "call" and x.a[0] == "genrand" and isinstance(x.a[1], T) and x.a[1].op == "vec" and len(x.a[1].a) == 3]
    draws = [x for x in draws if not any(x is not y and x in atoms(y) for y in draws)]
    if name == "anomalous":
        D, q = constants(sc, s, u, f)
        if len(draws) != 1 or D is None:
            return None, ""
        done = 0
        for k in range(1, 640):
            env = dict(D)
            env[n] = k
            try:
                lo, hi = (num(draws[0].a[1].a[end], env) for end in (1, 2))
                for end, step in ((lo, 1), (hi, -1)):
                    for w in range(200):        # the values of a wrong size are the smallest and the largest ones
                        env[draws[0]] = end + step * w
                        v = num(f, env)
                        if not lo <= env[draws[0]] <= hi or v.bit_length() == k:
                            break
                        if probable_prime(v):
                            return False, "for %d bits a prime of %d bits can be chosen" % (k, v.bit_length())
                done += 1
            except (Unknown, ValueError, ZeroDivisionError, TypeError):
                continue        # (e.g. the root of a negative number: PARI refuses, nothing is generated)
        return (True, "") if done > 400 else (None, "")
    return None, ""


def constants(sc, s, u, f):
    """values of the table entries the field is computed from: the loads on the term, evaluated in the initialised table"""
    return table_env(sc, f), None


def table_env(sc, f):
    ip, m = sc.ip, sc.m
    init = anomalous_table(m)
    if init is None:
        return None
    glob, st, ip2 = init
    env = {}
    for x in atoms(f):
        if x.op == "ld" and base_path(x) is not None:
            g, offs = base_path(x)
            if g is not glob:
                continue
            v = g
            for o in offs:
                v = ip2.load(st, ptradd(v, o))
            if v.op == "z":
                env[x] = v.a[0]
    return env or None


def base_path(x):
    offs = []
    while x.op == "ld":
        b, o = split(x.a[0])
        offs.append(o)
        if b.op == "G":
            return b, offs[::-1]
        x = b
    return None


_TAB = {}


def anomalous_table(m):
    """state after the function that sets up the table of discriminants"""
    if "x" in _TAB:
        return _TAB["x"]
    r = None
    f = m.fn("anomalous_init")
    if f is not None:
        ip = Scenario(m, method="METHOD_ANOMALOUS", seed_algo=0, field="FIELD_PRIME", **BASE).S.interp()
        ip.unroll = 16
        os_ = [o for o in ip.run("anomalous_init", [], State()) if o.kind == "ret"]
        if len(os_) == 1:
            gs = [k[0] for k in os_[0].st.mem if k[0].op == "G"]
            if len(gs) == 1:
                r = (gs[0], os_[0].st, ip)
    _TAB["x"] = r
    return r


# ------------------------------------------------------------------- binary fields
def modulus(f):
    """ffgen(v * Mod(1, 2)): the polynomial and the vector of its coefficients"""
    if f.op != "call" or f.a[0] != "ffgen":
        return None
    return f.a[1]


def coefficients(sc, s, poly):
    """[(address term, value)] stored to the coefficient vector, its length, low degree first?"""
    ip = sc.ip
    cand = [x for x in atoms(poly) if x.op == "call" and x.a[0] in ("gtopolyrev", "gtopoly")]
    if len(cand) != 1:
        return None
    h = cand[0].a[1]
    if h.op != "H" or len(h.a) < 4 or h.a[1] != "cgetg":
        return None
    n = h.a[2]
    out = []
    for k, v in s.facts.items():
        if k.op == "bool" and k.a[0] == "stored" and v is True and k.a[1].op == "px" and k.a[1].a[0] is h:
            out.append((k.a[1], k.a[2]))
    for (b, o), v in s.mem.items():
        if b is h and isinstance(o, int) and o > 0:
            out.append((ptradd(h, o), v))
    return h, n, out, cand[0].a[0] == "gtopolyrev"


def over_gf2(poly):
    return any(x.op == "vec" and x.a[0] == 3 and len(x.a) == 3 and {a.a[0] for a in x.a[1:] if a.op in ("z", "i")} == {1, 2} for x in atoms(poly))


def linear(ip, h, p):
    """index (in words) of an element address of h: {atom: coefficient, None: constant}"""
    d = {}
    if p.op == "px":
        d[None] = p.a[1]
        for v, sc in zip(p.a[2].a[0::2], p.a[2].a[1::2]):
            ip.lin(v, sc, d)
    else:
        d[None] = split(p)[1]
    return {k: c // 8 for k, c in d.items() if c} if all(c % 8 == 0 for c in d.values()) else None


def rows(m, ip, tab, size, fields, n):
    """entries of a table of 4 byte numbers"""
    g = m.globals[tab.a[0]]
    out = []
    for k in range(min(n, g["size"] // size)):
        r = {}
        for o in fields:
            v = ip.load(State(), ptradd(tab, k * size + o), 4)
            r[o] = v.a[0] if v.op == "i" else None
        out.append(r)
    return out


def cond(t, v, n, val, found):
    """does the fact t = v hold when the number of bits is val; None: it says nothing"""
    if t.op == "cmp":
        a, b = t.a[1], t.a[2]
        x = [val if y is n else y.a[0] if y.op == "i" else None for y in (a, b)]
        if None not in x and (a is n or b is n):
            r = dict(eq=x[0] == x[1], ne=x[0] != x[1], ult=x[0] < x[1], slt=x[0] < x[1], ule=x[0] <= x[1], sle=x[0] <= x[1],
                     ugt=x[0] > x[1], uge=x[0] >= x[1], sgt=x[0] > x[1], sge=x[0] >= x[1]).get(t.a[0])
            return None if r is None else r == v
        for y, o in ((a, b), (b, a)):
            if y.op == "call" and y.a[0] == "bsearch" and o is ZERO and t.a[0] in ("eq", "ne"):
                return ((y in found) == (t.a[0] == "ne")) == v
    return None


def solve(c, sc, u, states, lab):
    """the polynomial for every number of bits"""
    ip, m, n = sc.ip, sc.m, bits(sc)
    tabs, plans = {}, []
    for s, f in states:
        poly = modulus(f)
        co = coefficients(sc, s, poly) if poly is not None else None
        if co is None:
            if poly is not None and any(x.op == "call" and x.a[0] == "ffinit" for x in atoms(f)):
                continue
            return None
        h, ln, st, rev = co
        c.obligation(over_gf2(poly), "random/binary/characteristic", u.name, "the polynomial is not one over GF(2)", s.path(), lab)
        pos = []
        for p, v in st:
            l = linear(ip, h, p)
            if l is None or v is not ONE and v is not z(1):
                if v is z(0):
                    continue
                return None
            pos.append(l)
        L = {}
        if isinstance(ln, int):
            L[None] = ln
        else:
            ip.lin(ln, 1, L)
        bs = {x for x in atoms_of(s, pos, L) if x.op == "call" and x.a[0] == "bsearch"}
        if any(b.a[1].op != "G" or b.a[2].op != "i" or b.a[3].op != "i" for b in bs):
            return None
        for b in {y for x in s.facts for y in atoms(x) if y.op == "call" and y.a[0] == "bsearch"} | bs:
            tabs.setdefault(b)
        plans.append((s, pos, L, rev))
    # lookups
    data = {}
    for b in tabs:
        tab, cnt, size, cmp, key = b.a[1], b.a[2].a[0], b.a[3].a[0], b.a[4], b.a[5:]
        ko = [o.a[0] for o, v in zip(key[0::2], key[1::2]) if n in atoms(v)]
        c.obligation(len(ko) == 1, "table/key", tab.a[0], "the table is not searched for the requested number of bits", None, "key of %s" % tab.a[0])
        if len(ko) != 1:
            return None
        g = m.globals[tab.a[0]]
        c.obligation(cnt * size <= g["size"], "table/extent/%s" % tab.a[0], tab.a[0], "the search runs beyond the table", None, "extent of %s" % tab.a[0])
        offs = sorted({split(x.a[0])[1] for s, p, L, r in plans for x in atoms_of(s, p, L) if x.op == "ld" and split(x.a[0])[0] is b} | {ko[0]})
        rs = rows(m, ip, tab, size, offs, cnt)
        ks = [r[ko[0]] for r in rs]
        c.obligation(None not in ks and all(x < y for x, y in zip(ks, ks[1:])), "table/sorted/%s" % tab.a[0], tab.a[0],
                     "the table is not strictly sorted, so lookups miss entries: %s" % [(x, y) for x, y in zip(ks, ks[1:]) if x is None or y is None or x >= y][:3], None, "order of %s" % tab.a[0])
        compare(c, sc, cmp, ko[0])
        data[b] = {k: r for k, r in zip(ks, rs)}
    want, size_n = [], 0
    for k in range(2, 10001):
        found = {b for b in tabs if k in data[b]}
        live = [p for p in plans if all(cond(t, v, n, k, found) is not False for t, v in p[0].facts.items())]
        if not live:
            # rejected sizes are fine as long as they are rejected properly (exit status, protocol)
            continue
        size_n += 1
        for s, pos, L, rev in live:
            try:
                ln = val(L, n, k, data) - 1
                ix = {val(p, n, k, data) for p in pos}
            except KeyError as e:
                if isinstance(e.args[0], T):
                    return None
                c.bad("table/missing/%d" % k, u.name, "there is no entry for %d bits in the tables" % k, s.path())
                continue
            exps = {i - 1 for i in ix} if rev else {ln - i for i in ix}
            okr = all(1 <= i <= ln for i in ix)
            c.obligation(okr and max(exps) == k, "table/degree/%d" % k, u.name, "the polynomial for %d bits has exponents %s" % (k, sorted(exps, reverse=True)), s.path(), "")
            if okr and max(exps) == k:
                want.append((k, tuple(sorted(exps, reverse=True))))
    known = gf2.certified()
    want = sorted(set(want))
    todo = [w for w in want if c.tier == "thorough" or gf2.key(w[1]) not in known]
    res = {}
    if todo:
        with Pool(8) as p:
            res = dict(zip(todo, p.map(irr, [w[1] for w in todo], chunksize=16)))
    for w in want:
        c.obligation(res.get(w, True), "table/irreducible/%d" % w[0], u.name,
                     "the polynomial used for %d bits, with exponents %s, is reducible: no field" % (w[0], list(w[1])), None, "")
    c.cov["sizes of binary fields"] = size_n
    return size_n


def irr(e):
    return gf2.irreducible(e)


def atoms_of(s, pos, L):
    r = set()
    for d in list(pos) + [L]:
        for k in d:
            if k is not None:
                r |= set(atoms(k))
    return r


def val(d, n, k, data):
    r = 0
    for t, c in d.items():
        r += c * (1 if t is None else tval(t, n, k, data))
    return r


def tval(t, n, k, data):
    if t is n:
        return k
    if t.op == "i":
        return t.a[0]
    if t.op == "ld":
        b, o = split(t.a[0])
        if b in data:
            return data[b][k][o]
    if t.op == "add":
        return tval(t.a[0], n, k, data) + tval(t.a[1], n, k, data)
    if t.op in ("zext", "sext", "trunc"):
        return tval(t.a[0], n, k, data)
    raise KeyError(t)


def compare(c, sc, cmp, off):
    ip = sc.ip
    x, y = mk("sym", "one"), mk("sym", "two")
    for o in ip.run(cmp.a[0], [x, y], State()):
        a, b = ip.load(o.st, ptradd(x, off), 4), ip.load(o.st, ptradd(y, off), 4)
        if o.kind != "ret":
            continue
        ok = o.val is ip.sub(a, b, 32) or any(z_ is ip.sub(a, b, 32) for z_ in atoms(o.val))
        c.obligation(ok or ordered(ip, o, a, b), "table/compare/%s" % cmp.a[0], cmp.a[0], "entries are not compared by their degree", o.st.path(), "comparison")


def ordered(ip, o, a, b):
    """constant result -1 / 0 / 1 under the matching condition"""
    if o.val.op != "i":
        return False
    v = o.val.a[0]
    lt = any(ip.decide(o.st, ip.icmp(p, a, b)) is True for p in ("ult", "slt"))
    gt = any(ip.decide(o.st, ip.icmp(p, b, a)) is True for p in ("ult", "slt"))
    eq = ip.decide(o.st, ip.icmp("eq", a, b)) is True or any(ip.decide(o.st, ip.icmp(p, a, b)) is False and ip.decide(o.st, ip.icmp(p, b, a)) is False for p in ("ult", "slt"))
    return lt if v < 0 else gt if v > 0 else eq


def hook_bsearch(ip):
    def bsearch(ip, vals, st, uid, i):
        b, o = split(vals[0])
        key = [(I(k[1] - o), v) for k, v in st.mem.items() if k[0] is b and isinstance(k[1], int) and k[1] >= o]
        return [Outcome("ret", mk("call", "bsearch", *vals[1:], *[x for kv in sorted(key, key=lambda x: x[0].a[0]) for x in kv]), st)]
    ip.hooks["bsearch"] = bsearch


def tested(sc, s, poly):
    ip = sc.ip
    for k, v in s.facts.items():
        for x in atoms(k):
            if x.op == "call" and x.a[0] in ("polisirreducible", "FF_is_irreducible") and x.a[1] is poly:
                return ip.decide(s, ip.icmp("ne", x, ZERO)) is True
            if x.op == "bool" and x.a[0] == "polisirreducible" and x.a[1] is poly:
                return s.facts.get(x) is True
    return False


def of_degree(sc, s, poly):
    """the vector of coefficients has bits + 1 entries and the last one is 1"""
    ip, n = sc.ip, bits(sc)
    co = coefficients(sc, s, poly)
    if co is None:
        return None
    h, ln, st, rev = co
    if isinstance(ln, int) or not rev or s.facts.get(mk("zeq", padd(stoi(n), z(1)))) is True:
        return None                       # (2^64 - 1 bits)
    d = ip.sub(ln, n, 64)
    if d is not I(2):
        return None if d.op != "i" else False
    for p, v in st:
        l = linear(ip, h, p)
        if l is None or v is not ONE and v is not z(1):
            continue
        l = dict(l)
        c0 = l.pop(None, 0)
        if c0 == 1 and len(l) == 1:
            (t, k), = l.items()
            if k == 1 and (t is n or equal_bits(sc, s, t)):
                return True
    return False


def equal_bits(sc, s, t):
    """t is itos of a number known to be the number of bits"""
    n = bits(sc)
    if t.op == "call" and t.a[0] in ("itos", "itou", "gtos", "gtou"):
        return sc.eq(s, t.a[1], stoi(n))
    if t.op in ("itos", "itou"):
        return sc.eq(s, t.a[0], stoi(n))
    return sc.ip.decide(s, sc.ip.icmp("eq", t, n)) is True


def rule(c):
    m = load_module()
    npaths, fns = 0, set()
    scs = [(name, dict(BASE, **mo, field=f)) for name, mo in METHODS for f in ("FIELD_PRIME", "FIELD_BINARY") if f == "FIELD_PRIME" or name in BINARY]
    for pr in (0, 1):
        scs.append(("cm", dict(BASE, method="METHOD_CM", seed_algo=0, field="FIELD_PRIME", prime=pr)))
    solved = False
    for name, o in scs:
        sc = Scenario(m, **o)
        ip = sc.ip
        hook_bsearch(ip)
        ip.log_stores = o["field"] == "FIELD_BINARY"
        lab = "%s/%s" % (name, o["field"][6:].lower())
        stage = FIELD
        if name == "cm":
            sc.abstract(ret=("i1", "i32", "i64", "ptr"))
            stage = CURVE
        rnd = []
        for u in sc.units(stage):
            if u.name == "gen_skip":
                continue
            fns.add(u.name)
            acc = sc.accepted(u)
            st0 = u.state()
            for s in acc:
                npaths += 1
                f = sc.cur(s, "field")
                if o["field"] == "FIELD_PRIME":
                    c.obligation(is_prime(ip, s, f), "%s/%s/prime" % (name, u.name), u.name, "the field is Z/p for a p that was never found to be prime: %s (%s)" % (pretty(f)[:100], lab),
                                 s.path(), "%s: p prime" % lab)
                    inp = any(x.op == "call" and x.a[0] in ("getdelim", "strtoi", "out") for x in atoms(f))
                    if name in ("family", "cm"):
                        continue
                    if inp:
                        ok = ge0(ip, s, psub(pow2(ip, bits(sc)), f))
                        c.obligation(ok, "%s/%s/input-size" % (name, u.name), u.name, "the prime read may have more bits than requested (%s)" % lab, s.path(), "%s: size" % lab)
                    else:
                        ok, why = sized(c, sc, s, f, u, name, lab)
                        if ok is not None:
                            c.obligation(ok, "%s/%s/size" % (name, u.name), u.name, "the prime does not have the requested number of bits: %s (%s)" % (why, lab), s.path(), "%s: size" % lab)
                        else:
                            c.cov.setdefault("size not decided", []).append(lab) if lab not in c.cov.get("size not decided", []) else None
                else:
                    poly = modulus(f)
                    if poly is not None and tested(sc, s, poly):
                        c.obligation(over_gf2(poly), "%s/%s/characteristic" % (name, u.name), u.name, "the polynomial read is not one over GF(2) (%s)" % lab, s.path(), lab)
                        d = of_degree(sc, s, poly)
                        if d is not None:
                            c.obligation(d, "%s/%s/degree" % (name, u.name), u.name, "the polynomial read does not have the requested degree (%s)" % lab, s.path(), "%s: degree" % lab)
                    elif poly is not None and any(x.op == "call" and x.a[0] in ("getdelim", "strtoi") for k, v in s.facts.items() for x in atoms(k)):
                        c.obligation(False, "%s/%s/irreducible" % (name, u.name), u.name, "the polynomial read is not tested to be irreducible (%s)" % lab, s.path(), lab)
                    elif poly is None:
                        c.obligation(f.op == "call" and "ffinit" in str(f.a[:2]), "%s/%s/binary" % (name, u.name), u.name, "the field is not an extension of GF(2): %s (%s)" % (pretty(f)[:80], lab), s.path(), lab)
                    else:
                        rnd.append((u, s, f))
        if rnd and not solved:
            solved = solve(c, sc, rnd[0][0], [(s, f) for u, s, f in rnd], lab) is not None
            if not solved:
                c.cov["binary fields"] = "lookup not understood"
    c.cov["functions"] = sorted(fns)
    c.cov["paths"] = npaths
    c.require(npaths >= 20, "only %d accepting paths of the field stage were found" % npaths)


if __name__ == "__main__":
    main("P09", __doc__, rule)
