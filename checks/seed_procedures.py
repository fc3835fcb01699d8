"""seed_procedures: curves from a seed (ANSI X9.62, Brainpool, RFC 5639) and NUMS curves are the ones their procedures prescribe.

The wired stages of every seed method are interpreted with an unknown seed of known length: bit strings are followed bit by bit, SHA-1 is
an uninterpreted function of the bytes hashed.  What a stage records is then a formula over the bits of the seed, and each path carries the
conditions under which it is taken.  At sample points (seeds, primes, curves; chosen so that rejections, wrap-arounds, leading zeros and the
rare cases of the procedures occur) the conditions select the path, and the recorded formulas are compared with an independent
statement of the procedure.  A point for which a condition cannot be evaluated, or that needs more attempts than were followed, decides
nothing."""
import os, sys, random, hashlib, multiprocessing, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from bitstr import *
from curve_model import typeassume
import bit_strings

SEED, FIELD, A, B, GENS = 0, 1, 2, 3, 6
M160 = 1 << 160
TOP = (1 << 160) - 1


# ------------------------------------------------------------------------------------------------ the procedures
def sha(x, bits=160):
    """SHA-1 of the bit string of x of the given length (left aligned in bytes)"""
    n = (bits + 7) // 8
    return int.from_bytes(hashlib.sha1((x << (8 * n - bits)).to_bytes(n, "big")).digest(), "big")


def bp_hash(s, w, v):
    h = sha(s) % (1 << w)
    for i in range(1, v + 1):
        h = h << 160 | sha((s + i) % M160)
    return h


def bp_wv(L):
    v = (L - 1) // 160
    return L - 160 * v - 1, v


def next3(x):
    x += 1
    while x % 4 != 3 or not is_prime(x):
        x += 1
    return x


def bp_field(s, used, L, limit):
    """(prime, seed it comes from, attempts)"""
    w, v = bp_wv(L)
    s = (s + used) % M160
    for n in range(1, limit + 1):
        p = next3(bp_hash(s, w + 1, v))
        if 2 ** (L - 1) <= p < 2 ** L:
            return p, s, n
        s = (s + 1) % M160
    return None


def bp_eq(s, used, p, L, rfc, limit):
    """(a, b, seed of b, attempts)"""
    w, v = bp_wv(L)
    s = (s + used) % M160
    rare = False
    for n in range(1, limit + 1):
        a = bp_hash(s, w, v)
        if a % p == 0:
            rare = True
            s = (s + 1) % M160
            continue
        t = -3 * pow(a, -1, p) % p
        if t and not any(pow(r, 2, p) == t and jacobi(r, p) >= 0 for r in sqrts(t, p)):
            s = (s + 1) % M160
            continue
        s = (s + 1) % M160
        b = bp_hash(s, w, v)
        if rfc:
            for _ in range(limit):
                if jacobi(b, p) < 0:
                    break
                s = (s + 1) % M160
                b = bp_hash(s, w, v)
            else:
                return None
        elif jacobi(b, p) < 0:
            s = (s + 1) % M160
            continue
        if (4 * a ** 3 + 27 * b * b) % p == 0:
            rare = True
            s = (s + 1) % M160
            continue
        return a % p, b % p, s, n, rare
    return None


def sqrts(t, p):
    if p % 4 == 3:
        r = pow(t, (p + 1) // 4, p)
        return [r, p - r] if r * r % p == t else []
    return [r for r in range(p) if r * r % p == t]


def ansi_bits(s, g, L, clear):
    k = (L - 1) // 160
    h = L - 160 * k
    x = sha(s, g) % (1 << h)
    if clear:
        x %= 1 << (h - 1)
    for i in range(1, k + 1):
        x = x << 160 | sha((s + i) % (1 << g), g)
    return x


# ------------------------------------------------------------------------------------------------ small elliptic curves
class EC:
    def __init__(s, p, a, b):
        s.p, s.a, s.b = p, a, b

    def add(s, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = s.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + s.a) * pow(2 * P[1], -1, p)
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(s, P, k):
        if k < 0:
            return s.mul((P[0], -P[1] % s.p) if P else P, -k)
        R = None
        while k:
            if k & 1:
                R = s.add(R, P)
            P = s.add(P, P)
            k >>= 1
        return R

    def ys(s, x):
        x %= s.p
        return sorted(sqrts((x ** 3 + s.a * x + s.b) % s.p, s.p))[:1 + (x ** 3 + s.a * x + s.b) % s.p] if (x ** 3 + s.a * x + s.b) % s.p else [0]

    def count(s):
        return s.p + 1 + sum(jacobi(x ** 3 + s.a * x + s.b, s.p) for x in range(s.p))


# ------------------------------------------------------------------------------------------------ evaluation
class Sample(BitEval):
    """values at a sample point: random numbers by term, roots and points by computation"""

    def __init__(self, env, key, ec=None, swap=False, coin=0):
        BitEval.__init__(self, env, self.other)
        self.key, self.ec, self.swap, self.coin = key, ec, swap, coin

    def num(self, t):
        x = self(t)
        return x.v if isinstance(x, Mod) else integer(x)

    def other(self, t, ev):
        if t.op in ("neg",) and False:
            return None
        if t.op == "bool" and t.a[0] in ("isprime",):
            return is_prime(self.num(t.a[1]))
        if t.op == "ld":
            b, o = split(t.a[0])
            if isinstance(o, int) and o % 8 == 0 and b.op in ("call", "lift") and len(t.a) == 1:
                x = self(b)
                if isinstance(x, (list, tuple)):
                    k = o // 8 - 1
                    if 0 <= k < len(x):
                        return x[k]
                raise Unknown
            return None
        if t.op == "vec" and t.a[0] in (17, 18):
            return tuple(self(x) for x in t.a[1:])
        if t.op == "lg":
            x = self(t.a[0])
            if isinstance(x, (list, tuple)):
                return len(x) + 1
            raise Unknown
        if t.op == "and":
            return self(t.a[0]) & self(t.a[1])
        if t.op != "call":
            return None
        f, a = t.a[0], [x for x in t.a[1:] if isinstance(x, T)]
        if f == "genrand":
            r = random.Random("%s %s" % (self.key, pretty(t)[:2000]))
            if a and a[0].op == "vec" and len(a[0].a) == 3:
                return r.randint(self.num(a[0].a[1]), self.num(a[0].a[2]))
            return r.randrange(self.num(a[0]))
        if f in ("random_bits",):
            return self.coin
        if f in ("Fp_sqrtn", "Fq_sqrtn"):
            x, n, p = self.num(a[0]), self.num(a[1]), self.num(a[2])
            x %= p
            if p < 2000:
                return next((y for y in range(p) if pow(y, n, p) == x), "NULL") or ZEROROOT
            if n in (2, 4) and p % 4 == 3:
                return (pow(x, (p + 1) // 4, p) or ZEROROOT) if jacobi(x, p) >= 0 else "NULL"
            raise Unknown
        if f in ("Fp_sqrt", "Fp_sqrt_i", "Fq_sqrt"):
            x, p = self.num(a[0]) % self.num(a[1]), self.num(a[1])
            if p < 2000 or p % 4 == 3:
                r = sqrts(x, p)
                return r[self.swap % len(r)] if r else "NULL"
            raise Unknown
        if f in ("Fp_issquare", "Fq_issquare"):
            return int(jacobi(self.num(a[0]), self.num(a[1])) >= 0)
        if f in ("isprime", "ispseudoprime"):
            return int(is_prime(self.num(a[0])))
        if f in ("ellordinate", "ellmul", "ellorder", "ellneg", "elladd") and self.ec is not None:
            if self(a[0]) != "E":
                raise Unknown
            if f == "ellordinate":
                ys = self.ec.ys(self.num(a[1]))
                return [Mod(y, self.ec.p) for y in (ys[::-1] if self.swap else ys)]
            pt = lambda t: None if self(t) is None else tuple(x.v if isinstance(x, Mod) else integer(x) % self.ec.p for x in self(t))
            if f == "ellmul":
                return self.ec.mul(pt(a[1]), self.num(a[2]))
            if f == "ellneg":
                return self.ec.mul(pt(a[1]), -1)
            if f == "elladd":
                return self.ec.add(pt(a[1]), pt(a[2]))
            raise Unknown
        return None

    def comp(self, t):
        if t.op == "cmp" and t.a[0] in ("eq", "ne") and (t.a[1] is ZERO or t.a[2] is ZERO):
            x = self(t.a[2] if t.a[1] is ZERO else t.a[1])
            if x == "NULL":
                return t.a[0] == "eq"
            if x is ZEROROOT or isinstance(x, (list, tuple, str)):
                return t.a[0] == "ne"
        return BitEval.comp(self, t)


class _Z:
    pass


ZEROROOT = _Z()         # a root that is zero: not a null pointer


def feasible(s, ev, skip=()):
    """True, False or None (unknown): are the conditions of the path met at the sample point?"""
    unk = False
    for k, v in s.facts.items():
        if k in skip or k.op in ("init", "cli_init"):
            continue
        try:
            if bool(ev(k)) != bool(v):
                return False
        except Unknown:
            unk = True
        except (ZeroDivisionError, ValueError, TypeError, AttributeError, IndexError, OverflowError):
            unk = True
    for tab in (s.iv, ):
        for k, (lo, hi) in tab.items():
            try:
                x = ev(k)
                x = x.v if isinstance(x, Mod) else integer(x)
                if lo is not None and x < lo or hi is not None and x > hi:
                    return False
            except Exception:
                pass
    return None if unk else True


def value(ev, t):
    try:
        x = ev(t)
    except (Unknown, ZeroDivisionError, ValueError, TypeError, AttributeError, IndexError, OverflowError):
        return None
    return x


def num(ev, t):
    x = value(ev, t)
    if isinstance(x, Mod):
        return x.v
    try:
        return None if x is None else integer(x)
    except Unknown:
        return None


# ------------------------------------------------------------------------------------------------ running the stages
class Proc:
    def __init__(self, c, m, algo, field, L, attempts, hexlen=160, real=False):
        self.c, self.m, self.algo, self.field, self.L = c, m, algo, field, L
        o = dict(method="METHOD_SEED", seed_algo=algo, field=field, prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)
        self.sc = sc = Scenario(m, **o)
        ip = BitInterp(m)
        ip.trace_branches = False
        for n, f in sc.S.dtors.items():
            ip.hooks[n] = destroy(f)
        real = ip.hooks.get("bits_new_rand")
        self.bits = Bits(ip)
        ip.hooks.pop("bits_new_rand", None)
        self.bits.hexlen = hexlen
        ip.hooks["random_bits"] = self.coins
        ip.bounded = ip.unroll = attempts
        ip.force_unroll = True
        ip.unroll_decided = 700
        ip.max_paths = 6000
        sc.ip = self.ip = ip
        self.fns = set()
        self.o = {k: m.off("seed_t", k) for k in ("seed", "hash20", "type")}

    def coins(self, ip, v, st, uid, i):
        n = v[0]
        if n.op == "i" and 0 <= n.a[0] <= 31:
            return [Outcome("ret", mkbv([ibit(mk("rnd", "coin", uid), k) for k in range(n.a[0])]), st)]
        return None

    def start(self, u, prev=None):
        st = self.sc.S.curve_state(u)
        st.mem[(CFG, self.m.off("config_t", "bits"))] = I(self.L)
        if prev is not None:
            st.mem.update(prev.mem)
            for k in ("iv", "ne", "epoch", "zero"):
                getattr(st, k).update(getattr(prev, k))
            for k, v in prev.facts.items():
                if k.op != "cmp" or True:
                    st.facts.setdefault(k, v)
        return st

    def run(self, u, st):
        """outcomes of the stage: [(return value, state)], or None when there are too many paths"""
        self.fns.add(u.name)
        self.ip.steps = 0
        out = []
        try:
            for o in self.sc.outcomes(u, st):
                if o.kind == "ret":
                    out.append((o.val, o.st))
        except AnalysisError:
            return None
        return out

    def units(self, stage):
        seen, out = set(), []
        for u in self.sc.units(stage):
            if u.name not in seen and u.name != "gen_skip":
                seen.add(u.name)
                out.append(u)
        return out

    def seed_bits(self, st):
        """the bits of the recorded seed, or None"""
        sd = self.sc.cur(st, "seed")
        b = self.ip.load(st, ptradd(sd, self.o["seed"]))
        try:
            return self.bits.get(st, b)
        except Exception:
            return None

    def seed_value(self, st, ev):
        b = self.seed_bits(st)
        if b is None:
            return None
        r = 0
        for x in b:
            v = num(ev, x)
            if v is None:
                return None
            r = r << 1 | v & 1
        return r

    def field_term(self):
        return mk("ld", ptradd(CUR, self.m.off("curve_t", "field")))


def samples(rng, n, extra=()):
    xs = list(extra)
    while len(xs) < n:
        xs.append(rng.getrandbits(160))
    return xs


def seeds_of(p, res):
    """the states after the seed stage, with the unknown integer of the seed: [(unit, state, atom)]"""
    out = []
    for u in p.units(SEED):
        r = p.run(u, p.start(u))
        if r is None:
            continue
        for v, s in r:
            if v is not ONE:
                continue
            b = p.seed_bits(s)
            out.append((u, s, b))
    return out


def pick(paths, ev, base=()):
    """the one path taken at the sample point, or None"""
    hit = None
    for v, s in paths:
        f = feasible(s, ev, base)
        if f is None:
            return None
        if f:
            if hit is not None:
                return None
            hit = (v, s)
    return hit


def atom_of(b):
    """the integer of which these bits are the bits, or None"""
    if not b:
        return None
    xs = {x.a[0] for x in b if x.op == "ibit"}
    return xs.pop() if len(xs) == 1 and all(x.op == "ibit" and x.a[1] == len(b) - 1 - k for k, x in enumerate(b)) else None


class Report:
    @property
    def und(self):
        return self._u

    @und.setter
    def und(self, v):
        if os.environ.get("V"):
            f = sys._getframe(1)
            print("UND", f.f_code.co_name, f.f_lineno, f.f_locals.get("tag"), f.f_locals.get("algo"), f.f_locals.get("L"), flush=True)
        self._u = v

    def __init__(self):
        self.obs, self._u, self.pts, self.fns = [], 0, 0, set()

    def ob(self, ok, key, unit, msg, what, path=()):
        self.obs.append((bool(ok), key, unit, None if ok else msg, what))


def hx(x):
    return x if not isinstance(x, int) else hex(x)


def check_seed_random(R, p, u, s, b, need):
    lab = "%s/%s/seed" % (p.algo, u.name)
    if b is None:
        R.und += 1
        return
    if "random" not in u.name and not all(x.op == "i" or x.a[0].op in ("rnd", "call") for x in b):
        return
    R.ob(need(len(b)), lab + "/length", u.name, "the seed has %d bits" % len(b), "%s records a seed of %d bits" % (u.name, len(b)))
    src = [x for x in b]
    rnd = [x for x in src if x.op == "ibit" and (x.a[0].op == "rnd" or x.a[0].op == "call" and x.a[0].a[0] in ("genrand", "randomi", "random_bits"))]
    if any(x.op == "ibit" and x not in rnd for x in src):
        R.und += 1
        return
    R.ob(len(rnd) == len(src) == len(set(rnd)), lab + "/bits", u.name, "not every bit of the seed is one that was entered or drawn: %s" %
         " ".join("%d:%s" % (k, pretty(x)[:30]) for k, x in enumerate(src) if x not in rnd)[:200], "%s: every bit of the seed is an own bit of the source" % u.name)


def brainpool(R, c, m, algo, L, attempts, npts, rng):
    rfc = algo == "SEED_BRAINPOOL_RFC"
    p = Proc(c, m, algo, "FIELD_PRIME", L, attempts)
    R.fns |= p.fns
    w, v = bp_wv(L)
    starts = []
    for u, s, b in seeds_of(p, R):
        check_seed_random(R, p, u, s, b, lambda n: n == 160)
        t = p.ip.load(s, ptradd(p.sc.cur(s, "seed"), p.o["type"]), 4)
        R.ob(t.op != "i" or t.a[0] == m.enums[algo], "%s/%s/type" % (algo, u.name), u.name, "the seed is recorded as type %s" % pretty(t), "type of the seed of %s" % u.name)
        if atom_of(b) is not None:
            starts.append((u, s, atom_of(b)))
    if not starts:
        R.und += 1
        return
    u0, s0, X = [x for x in starts if "argument" in x[0].name][0] if any("argument" in x[0].name for x in starts) else starts[0]
    base = set(s0.facts)
    ftop = p.field_term()
    clean = lambda s: keep_path(s, base, s0)

    def field_stage(st, tag, used):
        """(successful paths, the state after the shortest success)"""
        res = []
        for u in p.units(FIELD):
            q = p.start(u, st)
            fx = set(q.facts)
            paths = p.run(u, q)
            if paths is None:
                R.und += 1
                continue
            res.append((u, paths))
            cand = samples(rng, npts, [TOP, TOP - 1, TOP - 2, 0, 1, (1 << 152) - 1])
            k = 0
            for x in cand + [rng.getrandbits(160) for _ in range(4 * npts)]:
                if k >= npts:
                    break
                ev = Sample({X: x}, x)
                S = p.seed_value(st, ev)
                if S is None:
                    R.und += 1
                    continue
                want = bp_field(S, used, L, attempts)
                if want is None:
                    continue
                k += 1
                R.pts += 1
                hit = pick(paths, ev, fx)
                if hit is None:
                    R.und += 1
                    continue
                ok = hit[0] is ONE
                f = num(ev, p.sc.cur(hit[1], "field"))
                sv = p.seed_value(hit[1], ev)
                if ok and (f is None or sv is None):
                    R.und += 1
                    continue
                R.ob(ok and f == want[0] and sv == want[1], "%s/%s/%s" % (algo, u.name, tag), u.name, "for the seed %s (%d bits, %s) the prime %s from the seed %s is recorded; the "
                     "procedure gives %s from %s" % (hx(x), L, tag, hx(f), hx(sv), hx(want[0]), hx(want[1])), "%s, %d bits, %s, seed %s" % (algo, L, tag, hx(x)))
        return res

    def shortest(res):
        best = None
        for u, paths in res:
            for v, s in paths:
                if v is ONE and (best is None or len(s.facts) < len(best.facts)):
                    best = s
        return best

    f1 = field_stage(s0, "first field", 0)
    sf = shortest(f1)

    def eq_stage(st, tag, used, env0=lambda x: {}):
        res = []
        st = clean(st)
        st.mem[(CUR, m.off("curve_t", "field"))] = ftop
        for u in p.units(B):
            q = p.start(u, st)
            typeassume(p.sc, q, "FIELD_PRIME", ftop)
            fx = set(q.facts)
            paths = p.run(u, q)
            if paths is None:
                R.und += 1
                continue
            res.append((u, paths))
            k = 0
            rare = 8 if L < 10 else 0
            for j in range(30 * npts + (3000 if rare else 0)):
                if k >= npts and (rare <= 0 or j > 3000):
                    break
                x = [TOP, TOP - 1, TOP - 2, 0, 1][j] if j < 5 else rng.getrandbits(160)
                P = prime3(rng, L)
                if P is None:
                    break
                ev = Sample({X: x, ftop: P}, x)
                S = p.seed_value(st, ev)
                if S is None:
                    continue
                want = bp_eq(S, used, P, L, rfc, attempts - 1)
                if want is None or j > 5 and want[3] == 1 and k % 2 or k >= npts and not want[4]:
                    continue
                rare -= want[4]
                k += 1
                R.pts += 1
                hit = pick(paths, ev, fx)
                if hit is None:
                    R.und += 1
                    continue
                ok = hit[0] is ONE
                a, b, sv = num(ev, p.sc.cur(hit[1], "a")), num(ev, p.sc.cur(hit[1], "b")), p.seed_value(hit[1], ev)
                if ok and None in (a, b, sv):
                    R.und += 1
                    continue
                R.ob(ok and (a, b, sv) == want[:3], "%s/%s/%s" % (algo, u.name, tag), u.name, "for the seed %s, p = %s (%d bits, %s) the coefficients (%s, %s) from the seed %s are "
                     "recorded; the procedure gives (%s, %s) from %s" % (hx(x), hx(P), L, tag, hx(a), hx(b), hx(sv), hx(want[0]), hx(want[1]), hx(want[2])),
                     "%s, %d bits, %s, seed %s" % (algo, L, tag, hx(x)))
        return res

    eq_stage(s0, "equation from a fresh seed", 0)
    if sf is not None:
        e1 = eq_stage(sf, "equation", 1)
        se = shortest(e1)
        if se is not None:
            eq_stage(se, "equation after a rejected one", 1)
            field_stage(clean(se), "field after a rejected curve", 1)
            sg = gens_stage(R, p, m, algo, L, clean(se), X, rng, npts, attempts)
            if sg is not None:
                field_stage(clean(sg), "field after a rejected generator", 1)
    R.fns |= p.fns


def keep_path(s, base, s0):
    """the state without the conditions of the path that led to it (another seed would have led there)"""
    q = s.copy()
    q.facts = {k: v for k, v in s.facts.items() if k in base}
    q.iv = dict(s0.iv)
    q.ne = dict(s0.ne)
    q.zero = dict(s0.zero) if isinstance(s0.zero, dict) else set(s0.zero)
    return q


def prime3(rng, L):
    for _ in range(4000):
        x = (rng.getrandbits(L) | 1 << (L - 1)) | 3
        if is_prime(x):
            return x
    return None


def small_curve(rng, bits=7):
    while True:
        q = prime3(rng, bits)
        a, b = rng.randrange(1, q), rng.randrange(1, q)
        if (4 * a ** 3 + 27 * b * b) % q:
            return EC(q, a, b)


def gens_stage(R, p, m, algo, L, st, X, rng, npts, attempts):
    last = None
    E = mk("ld", ptradd(CUR, m.off("curve_t", "curve")))
    N = mk("ld", ptradd(CUR, m.off("curve_t", "order")))
    ftop = p.field_term()
    w, v = bp_wv(L)
    p.ip.bounded = p.ip.unroll = 12
    for u in p.units(GENS):
        q = p.start(u, st)
        for nm in ("field", "curve", "order"):
            q.mem[(CUR, m.off("curve_t", nm))] = mk("ld", ptradd(CUR, m.off("curve_t", nm)))
        fx = set(q.facts)
        paths = p.run(u, q)
        if paths is None:
            R.und += 1
            continue
        for vv, s in paths:
            if vv is ONE:
                last = s
        for k in range(2 * npts):
            x = [TOP, 0][k] if k < 2 else rng.getrandbits(160)
            ec = small_curve(rng)
            x0 = next(i for i in range(ec.p) if ec.ys(i))
            n = ec.count()
            want = None
            for coin in (0, 1):
                ev = Sample(Coins({X: x, E: "E", N: n, ftop: ec.p}, coin), x, ec, swap=k % 2)
                S = p.seed_value(st, ev)
                if S is None:
                    continue
                s1 = (S + 1) % M160
                kk = bp_hash(s1, w, v)
                hit = pick(paths, ev, fx)
                if hit is None:
                    R.und += 1
                    continue
                R.pts += 1
                g = point_of(p, m, hit[1])
                pt = value(ev, g) if g is not None else None
                sv = p.seed_value(hit[1], ev)
                if pt is None and g is not None and hit[0] is ONE:
                    try:
                        ev(g)
                        pt = ()
                    except Exception:
                        pt = None
                if hit[0] is ONE and (g is None or pt is None or sv is None):
                    R.und += 1
                    continue
                pt = tuple(y.v if isinstance(y, Mod) else integer(y) for y in pt) if pt else pt
                ok = [ec.mul((x0, y), kk) or () for y in ec.ys(x0)]
                R.ob(hit[0] is ONE and pt in ok and sv == s1, "%s/%s" % (algo, u.name), u.name, "on y² = x³ + %dx + %d over F_%d with the seed %s the generator %s is recorded "
                     "(seed then %s); the procedure gives a point of %s, seed %s" % (ec.a, ec.b, ec.p, hx(S), pt, hx(sv), ok, hx(s1)), "%s, %d bits, generator" % (algo, L))
                mo = mult(p, m, hit[1])
                if mo is not None and hit[0] is ONE:
                    mv = num(ev, mo)
                    if mv is not None:
                        R.ob(mv == kk, "%s/%s/multiplier" % (algo, u.name), u.name, "the multiplier recorded with the seed is %s, the one used should be %s" % (hx(mv), hx(kk)),
                             "%s, %d bits, multiplier" % (algo, L))
    p.ip.bounded = p.ip.unroll = attempts
    return last


class Coins(dict):
    """environment with all bits drawn at random equal to a constant"""

    def __init__(self, d, coin):
        dict.__init__(self, d)
        self.coin = coin

    def __contains__(self, t):
        return dict.__contains__(self, t) or t.op == "rnd" and t.a[0] == "coin"

    def __getitem__(self, t):
        return dict.__getitem__(self, t) if dict.__contains__(self, t) else (1 << 64) - 1 if self.coin else 0


def mult(p, m, s):
    try:
        sd = p.sc.cur(s, "seed")
        x = s.mem.get((sd, m.off("seed_t", "brainpool") + m.off("brainpool_seed_t", "mult")))
        return x
    except Exception:
        return None


def point_of(p, m, s):
    try:
        g = p.sc.cur(s, "generators")
        sub = p.ip.load(s, g)
        gp = p.ip.load(s, ptradd(sub, m.off("subgroup_t", "generator")))
        return p.ip.load(s, ptradd(gp, m.off("point_t", "point")))
    except Exception:
        return None


def ansi(R, c, m, field, L, hexlen, npts, rng):
    p = Proc(c, m, "SEED_ANSI", field, L, 3, hexlen)
    ftop = p.field_term()
    FFG = []
    for u, s, b in seeds_of(p, R):
        check_seed_random(R, p, u, s, b, lambda n: n >= 160)
        X = atom_of(b) if b else None
        t = p.ip.load(s, ptradd(p.sc.cur(s, "seed"), p.o["type"]), 4)
        R.ob(t.op != "i" or t.a[0] == m.enums["SEED_ANSI"], "ansi/%s/type" % u.name, u.name, "the seed is recorded as type %s" % pretty(t), "type of the seed of %s" % u.name)
        if X is None:
            continue
        g = len(b)
        base = set(s.facts)
        for ub in p.units(B):
            st = keep_path(s, base, s)
            st.mem[(CUR, m.off("curve_t", "field"))] = ftop
            q = p.start(ub, st)
            if not typeassume(p.sc, q, field, ftop):
                continue
            fx = set(q.facts)
            paths = p.run(ub, q)
            if paths is None:
                R.und += 1
                continue
            for k in range(npts):
                x = [(1 << g) - 1, (1 << g) - 2, 0, 1, 1 << (g - 1)][k] if k < 5 else rng.getrandbits(g)
                if u.name.endswith("random"):
                    x |= 1 << (g - 1)
                P = prime3(rng, L) if field == "FIELD_PRIME" else None
                R.pts += 1
                for draw in range(5):           # other random values of a when those of the sample need too many attempts
                    ev = Sample({X: x, ftop: P if P else "F"}, (x, draw))
                    hit = pick(paths, ev, fx)
                    if hit is not None:
                        break
                else:
                    R.und += 1
                    continue
                ok = hit[0] is ONE
                lab = "ansi/%s/%s" % (field, ub.name)
                if field == "FIELD_PRIME":
                    r = ansi_bits(x, g, L, True)
                    a, b_ = num(ev, p.sc.cur(hit[1], "a")), num(ev, p.sc.cur(hit[1], "b"))
                    if r % P == 0:
                        R.ob(not ok, lab + "/r0", ub.name, "a seed whose r is 0 is accepted", "%s: r = 0" % ub.name)
                        continue
                    if not ok:
                        continue
                    if a is None or b_ is None:
                        R.und += 1
                        continue
                    R.ob((r * b_ * b_ - a ** 3) % P == 0, lab, ub.name, "for the seed %s of %d bits and p = %s (%d bits) the recorded a = %s, b = %s do not satisfy r·b² = a³ with r = %s of the "
                         "seed" % (hx(x), g, hx(P), L, hx(a), hx(b_), hx(r)), "ANSI, prime field, %d bits, seed %s of %d bits" % (L, hx(x), g))
                    rec = p.ip.load(hit[1], ptradd(p.sc.cur(hit[1], "seed"), m.off("seed_t", "ansi") + m.off("ansi_seed_t", "r"))) if has(m, "ansi_seed_t", "r") else None
                    rv = num(ev, rec) if rec is not None else None
                    if rv is not None:
                        R.ob(rv == r, lab + "/r", ub.name, "r is recorded as %s, it is %s" % (hx(rv), hx(r)), "ANSI, recorded r, %d bits" % L)
                else:
                    w = ansi_bits(x, g, L, False)
                    if w == 0:
                        R.ob(not ok, lab + "/b0", ub.name, "a seed whose b is 0 is accepted", "%s: b = 0" % ub.name)
                        continue
                    if not ok:
                        continue
                    tb = p.sc.cur(hit[1], "b")
                    iv = element_int(tb, ftop)
                    bv = num(ev, iv) if iv is not None else None
                    if bv is None:
                        R.und += 1
                        continue
                    R.ob(bv == w, lab, ub.name, "for the seed %s of %d bits (field of degree %d) b is the element of the bits %s; the procedure gives %s" % (hx(x), g, L, hx(bv), hx(w)),
                         "ANSI, binary field, degree %d, seed %s of %d bits" % (L, hx(x), g))
    R.fns |= p.fns


def has(m, t, f):
    try:
        m.off(t, f)
        return True
    except Exception:
        return False


def element_int(t, f):
    """the integer whose bits are the coefficients of the recorded element, or None"""
    if t.op == "vec" and t.a[0] == 3 and len(t.a) == 3 and t.a[1] is f:
        return t.a[2]
    if t.op == "vec" and t.a[0] == 3 and len(t.a) == 3:
        return t.a[2]
    for x in atoms(t):
        if x.op == "call" and x.a[0] in ("digits", "binary_zv", "gen_digits"):
            return x.a[1]
    return None


def verdicts(R, c, m, algo, npts, rng):
    """the checks that reject a curve after its order or its generator is known"""
    p = Proc(c, m, algo, "FIELD_PRIME", 32, 3)
    ftop = p.field_term()
    N = mk("ld", ptradd(CUR, m.off("curve_t", "order")))
    for stage in (5, GENS):
        for u in p.units(stage):
            q = p.start(u)
            for nm in ("field", "curve", "order", "generators"):
                q.mem[(CUR, m.off("curve_t", nm))] = mk("ld", ptradd(CUR, m.off("curve_t", nm)))
            typeassume(p.sc, q, "FIELD_PRIME", ftop)
            q.mem[(CUR, m.off("curve_t", "ngens"))] = I(1)
            sub = p.ip.load(q, p.sc.cur(q, "generators"))
            O = p.ip.load(q, ptradd(p.ip.load(q, ptradd(sub, m.off("subgroup_t", "generator"))), m.off("point_t", "order")))
            fx = set(q.facts)
            hook_embedding(p)
            sts = [q]
            rej = []
            p.fns.add(u.name)
            try:
                for fn, arg in p.sc.checks(u):
                    p.fns.add(fn)
                    nx = []
                    for s in sts:
                        for o in p.ip.run(fn, [CUR, arg, I(u.stage)], s.copy()):
                            if o.kind != "ret":
                                continue
                            (nx if o.val is ONE else rej).append(o.st)
                    sts = nx
            except AnalysisError:
                R.und += 1
                continue
            if not rej and sts == [q]:
                continue
            paths = [(ONE, s) for s in sts] + [(ZERO, s) for s in rej]
            for k in range(2 * npts):
                P = prime3(rng, 14)
                h = int(2 * P ** .5)
                n = rng.choice([P - 1, P, P + 1, P + h, P - h, rng.randint(P - h, P + h)])
                if stage == GENS:
                    while not is_prime(n):
                        n += 1 if n < P + h else -h
                e = embedding(P, n) if stage == GENS and n != P else None
                ev = Embed({ftop: P, N: n, O: n, p.field_term(): P}, k)
                hit = pick(paths, ev, fx)
                if hit is None:
                    if os.environ.get("V"): print("VER", stage, P, n, e, [(v_, [(pretty(k_)[:150], v__) for k_, v__ in s_.facts.items() if k_ not in fx and num(ev, k_) != v__]) for v_, s_ in paths])
                    R.und += 1
                    continue
                R.pts += 1
                acc = hit[0] is ONE
                if stage == 5:
                    R.ob(acc == (n < P), "%s/order" % algo, u.name, "a curve of order %d over the field of %d elements is %s; the order has to be less than the prime" %
                         (n, P, "accepted" if acc else "rejected"), "%s: order %d, p = %d" % (algo, n, P))
                else:
                    want = n != P and (n - 1) // 100 < e
                    R.ob(acc == want, "%s/embedding" % algo, u.name, "a generator of order %d over the field of %d elements (embedding degree %s) is %s; the degree has to exceed "
                         "(n - 1)/100 and n has to differ from p" % (n, P, e, "accepted" if acc else "rejected"), "%s: n = %d, p = %d" % (algo, n, P))
    R.fns |= p.fns


def embedding(p, n):
    if p % n == 0:
        return 0
    k, x = 1, p % n
    while x != 1:
        x = x * p % n
        k += 1
    return k


def hook_embedding(p):
    for f in p.m.repo_fns():
        if f.dname == "gens_get_embedding":
            p.ip.hooks[f.dname] = lambda ip, v, st, uid, i: [Outcome("ret", mk("call", "embedding", gen_(ip, st, v[0]), gen_(ip, st, v[1])), st)]


class Embed(Sample):
    def other(self, t, ev):
        if t.op == "call" and t.a[0] == "embedding":
            return embedding(self.num(t.a[1]), self.num(t.a[2]))
        if t.op == "call" and t.a[0] in ("znorder", "order") and t.a[1].op == "vec":
            return embedding(self.num(t.a[1].a[2]), self.num(t.a[1].a[1]))
        return Sample.other(self, t, ev)


def nums(R, c, m, L, rng):
    p = Proc(c, m, "SEED_NUMS", "FIELD_PRIME", L, 40)
    p.ip.unroll_decided = 700
    ftop = p.field_term()
    E = mk("ld", ptradd(CUR, m.off("curve_t", "curve")))
    P0 = 2 ** L - 1
    while not is_prime(P0):
        P0 -= 4
    for u in p.units(FIELD):
        q = p.start(u)
        fx = set(q.facts)
        paths = p.run(u, q)
        hit = pick(paths, Sample({}, 0), fx) if paths else None
        f = num(Sample({}, 0), p.sc.cur(hit[1], "field")) if hit else None
        if f is None:
            R.und += 1
        else:
            R.ob(f == P0, "nums/%s" % u.name, u.name, "for %d bits the prime %s is recorded; the largest prime 2^%d - c with c = 1, 5, 9, ... is %s" % (L, hx(f), L, hx(P0)),
                 "NUMS prime of %d bits" % L)
    for u in p.units(A):
        q = p.start(u)
        for v, s in p.run(u, q) or ():
            x = num(Sample({ftop: P0}, 0), p.sc.cur(s, "a"))
            if x is None:
                R.und += 1
            else:
                R.ob(v is ONE and x == P0 - 3, "nums/%s" % u.name, u.name, "a is recorded as %s instead of p - 3" % hx(x), "NUMS a, %d bits" % L)
    # b: from the program's initial state, one curve whose coefficients are rejected one after the other, then another curve
    for u in p.units(B):
        q = p.start(u)
        fx = set(q.facts)
        initial(q, m)
        ev = Sample({ftop: P0}, 0)
        sts, seen, seq = q, [], []
        for step in range(6):
            paths = p.run(u, sts)
            hit = pick(paths, ev, fx) if paths else None
            if hit is None or hit[0] is not ONE:
                R.und += 1
                break
            x = num(ev, p.sc.cur(hit[1], "b"))
            if x is None:
                R.und += 1
                break
            seq.append(x)
            sts = hit[1].copy()
            sts.mem.pop((CUR, m.off("curve_t", "b")), None)
        ok = list(range(1, 10))
        alt = [1, 3, 4, 5, 6, 7]
        if seq:
            R.ob(seq == ok[:len(seq)] or seq == alt[:len(seq)], "nums/%s" % u.name, u.name, "the coefficients b tried for one curve are %s, not all of 1, 3, 4, 5, ..." % seq, "NUMS sequence of b")
    # the order: accepted exactly when it and that of the twist are prime
    for u in p.units(5):
        q = p.start(u)
        q.mem[(CUR, m.off("curve_t", "field"))] = ftop
        fx = set(q.facts)
        paths = p.run(u, q)
        if paths is None:
            R.und += 1
            continue
        oc = {t for v, s in paths for x in list(s.facts) + [p.sc.cur(s, "order")] if isinstance(x, T) for t in atoms(x) if t.op == "call" and t.a[0] in ("ellsea", "ellcard", "ellap", "ellgroup")}
        if len(oc) != 1 or next(iter(oc)).a[0] not in ("ellsea", "ellcard"):
            R.und += 1
            continue
        oc = oc.pop()
        for k in range(24):
            q_ = prime3(rng, 12)
            lo, hi = q_ + 1 - int(2 * q_ ** .5), q_ + 1 + int(2 * q_ ** .5)
            cand = [n for n in range(lo, hi + 1) if (is_prime(n), is_prime(2 * q_ + 2 - n)) == (k & 1 > 0, k & 2 > 0)]
            n = rng.choice(cand) if cand else lo
            if k >= 20 and oc.a[0] == "ellsea":
                n = 0
            good = is_prime(n) and is_prime(2 * q_ + 2 - n)
            ev = Sample({ftop: q_, oc: n}, k)
            hit = pick(paths, ev, fx)
            if hit is None:
                R.und += 1
                continue
            R.pts += 1
            acc = hit[0] is ONE
            x = num(ev, p.sc.cur(hit[1], "order")) if acc else None
            if acc and x is None:
                R.und += 1
                continue
            R.ob(acc == good and (not acc or x == n), "nums/%s" % u.name, u.name, "over the field of %d elements a curve of order %d (twist %d) is %s%s" % (q_, n, 2 * q_ + 2 - n,
                 "accepted" if acc else "rejected", " with order %s" % x if acc else ""), "NUMS order %d, twist %d" % (n, 2 * q_ + 2 - n))
    # the generator: smallest abscissa from 1, smaller ordinate
    N = mk("ld", ptradd(CUR, m.off("curve_t", "order")))
    for u in p.units(GENS):
        q = p.start(u)
        for nm in ("field", "curve", "order"):
            q.mem[(CUR, m.off("curve_t", nm))] = mk("ld", ptradd(CUR, m.off("curve_t", nm)))
        fx = set(q.facts)
        paths = p.run(u, q)
        if paths is None:
            R.und += 1
            continue
        for k in range(20):
            while True:
                ec = small_curve(rng)
                n = ec.count()
                if is_prime(n):
                    break
            for swap in (0, 1):
                ev = Sample({ftop: ec.p, N: n, E: "E"}, k, ec, swap)
                hit = pick(paths, ev, fx)
                g = point_of(p, m, hit[1]) if hit else None
                pt = value(ev, g) if g is not None and hit[0] is ONE else None
                if not pt:
                    R.und += 1
                    continue
                R.pts += 1
                pt = tuple(y.v if isinstance(y, Mod) else integer(y) for y in pt)
                x0 = next(i for i in range(1, ec.p) if ec.ys(i))
                R.ob(pt == (x0, min(ec.ys(x0))), "nums/%s" % u.name, u.name, "on y² = x³ + %dx + %d over F_%d the generator %s is recorded; the procedure gives %s" %
                     (ec.a, ec.b, ec.p, pt, (x0, min(ec.ys(x0)))), "NUMS generator")
    R.fns |= p.fns


def initial(st, m):
    """the program's own variables that are zero when it starts"""
    for n, g in m.globals.items():
        if g.get("internal") and not g["const"] and all(x[2] == ["null"] for x in g.get("init") or []):
            st.zero[mk("G", n)] = True


class TimeLimit(BaseException):
    pass


LIMIT = 90 if os.environ.get("VERIF_TIER", "quick") == "quick" else 400


def job(k):
    f, args, npts = JOBS[k]
    R = Report()
    rng = random.Random("9562 %s" % (args,))
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeLimit()))
    signal.alarm(LIMIT)
    try:
        f(R, None, MOD, *args, *([npts] if npts else []), rng)
    except TimeLimit:
        R.und += 1
    signal.alarm(0)
    return R.obs, R.und, R.pts, R.fns


JOBS, MOD = [], None


def rule(c):
    global MOD
    MOD = m = load_module()
    quick = os.environ.get("VERIF_TIER", "quick") == "quick"
    BL = (6, 8, 32, 160, 161, 162, 200, 321) if quick else (5, 6, 7, 8, 9, 16, 24, 32, 64, 128, 159, 160, 161, 162, 192, 200, 224, 256, 319, 320, 321, 322, 384, 481, 512, 521)
    npts = 10 if quick else 40
    att = 3 if quick else 4
    JOBS[:] = [(brainpool, (algo, L, att), npts) for L in BL for algo in ("SEED_BRAINPOOL", "SEED_BRAINPOOL_RFC")]
    JOBS.extend((ansi, (field, L, h), npts) for L in BL for field in ("FIELD_PRIME", "FIELD_BINARY") for h in ((160, 168) if quick else (160, 164, 168, 192, 512)))
    JOBS.extend((nums, (L,), 0) for L in ((8, 20, 32, 128) if quick else (6, 8, 16, 20, 32, 64, 127, 128, 192, 256, 384)))
    JOBS.extend((verdicts, (algo,), npts) for algo in ("SEED_BRAINPOOL", "SEED_BRAINPOOL_RFC"))
    JOBS.sort(key=lambda j: -max([x for x in j[1] if isinstance(x, int)] or [50]) * (1 if j[0] is brainpool else .3))
    und = pts = 0
    fns = set()
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for k, (obs, u, p, f) in zip(range(len(JOBS)), pool.imap(job, range(len(JOBS)))):
            und, pts, fns = und + u, pts + p, fns | f
            for o in obs:
                c.obligation(o[0], o[1], o[2], o[3], [], o[4])
    for obs, u, f in bit_strings.jobs(m, [x for x in bit_strings.api(m) if x in bit_strings.SEEDS]):
        und, fns = und + u, fns | f
        for o in obs:
            c.obligation(*o)
    c.cov["functions"] = sorted(fns)
    c.cov["sample_points"] = pts
    c.cov["undecided"] = und


if __name__ == "__main__":
    main("P20", __doc__, rule)
