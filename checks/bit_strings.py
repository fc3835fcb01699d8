"""bit_strings: the operations on bit strings are exact for every length and content.

The functions of util/bits.h are interpreted on bit strings whose bits are unknown (every bit its own symbol, so one run stands for every
content; where the code branches on bits, all combinations are followed in a window of symbolic bits on constant backgrounds), for every
length around the byte boundaries.  The result is compared bit by bit with what the operation means for a sequence of bits, most significant
bit first: conversions keep the value, shifts, rotations, concatenation, shortening and lengthening move each bit where it belongs, bits
outside the string are never exposed, and the unused bits of the last byte stay zero, so that hashes and further operations do not see
them."""
import os, sys, random, signal, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from bitstr import *
import cstrings

X, Y, Z = mk("sym", "X"), mk("sym", "Y"), mk("sym", "Z")


class Run:
    def __init__(self, m):
        self.m = m
        ip = self.ip = BitInterp(m)
        ip.trace_branches = False
        ip.force_unroll, ip.unroll, ip.unroll_decided, ip.max_paths = True, 700, 3000, 9000
        keep = dict(ip.hooks)
        self.B = Bits(ip)
        ip.hooks.clear()
        ip.hooks.update(keep)
        self.size, self.oob = {}, set()
        ip.on_load = lambda ip, st, p, i: self.touch(st, p, i)
        ip.on_store = lambda ip, st, p, v, i: self.touch(st, p, i)
        H = ip.hooks
        cstrings.install(ip)
        H["random_bits"] = self.coins
        for n in ("sprintf", "snprintf", "__sprintf_chk", "__snprintf_chk"):
            H[n] = self.sprintf
        H["binary_zv"] = H["binary"] = self.binary
        H["zero_zv"] = H["zero_Flv"] = self.zeros
        H["glength"] = self.glength
        H["gtovecsmall0"] = self.gtovec
        for n in ("SHA1_Init", "SHA1_Update", "SHA1_Final", "SHA1"):
            H[n] = getattr(self, "h_" + n)

    def touch(self, st, p, i):
        """accesses behind the bytes of an operand"""
        b = base_of(p)
        if b.op == "A":
            # a copy on the stack, read behind the bytes that were put there
            if i.op == "load" and i.d["sz"] == 1 and p.op == "p" and isinstance(p.a[1], int) and (b, p.a[1]) not in st.mem and b not in st.zero:
                if st.mem.get((b, p.a[1] - 1)) is not None and not any(k[0] is b and k[1] > p.a[1] for k in st.mem):
                    self.oob.add("byte %d of a copy of %d" % (p.a[1], p.a[1]))
            return
        if b.op == "H" and len(b.a) > 2 and b.a[1] == "raw" and b in self.size and b is not p:
            k = next((x for x in range(self.size[b], self.size[b] + 3) if ptradd(b, x) is p), None)
            if k is not None:
                self.oob.add("byte %d of %d (%s)" % (k, self.size[b], i.fn.dname if hasattr(i, "fn") else i.op))

    def coins(self, ip, v, st, uid, i):
        if v[0].op == "i" and 0 <= v[0].a[0] <= 31:
            return [Outcome("ret", mkbv([ibit(mk("rnd", "coin", uid), k) for k in range(v[0].a[0])]), st)]

    def sprintf(self, ip, v, st, uid, i):
        n = (m_name(self.m, i) or "").strip("_").replace("_chk", "")
        dst, rest = v[0], list(v[1:])
        raw = m_name(self.m, i) or ""
        if "snprintf" in raw:
            rest = rest[1:]
        if "_chk" in raw:
            rest = rest[2:]
        f = cstrings.get(ip, st, rest[0])
        if f in ("%02x", "%02X", "%02hhx") and len(rest) == 2:
            b = bvbits(rest[1], 8)
            if b is None:
                return None
            out = [mk("hexd", *b[4:]), mk("hexd", *b[:4])]
            if rest[1].op == "i":
                out = [I(ord("%x" % (rest[1].a[0] >> 4 & 15))), I(ord("%x" % (rest[1].a[0] & 15)))]
        elif f in ("%1u", "%u", "%1d", "%d", "%c") and len(rest) == 2:
            b = bvbits(rest[1], 1)
            if b is None or f == "%c":
                return None
            out = [mk("bind", b[0])]
        elif f in ("%1x", "%x", "%01x") and len(rest) == 2:
            b = bvbits(rest[1], 4)
            if b is None:
                return None
            out = [mk("hexd", *b)]
        else:
            return None
        for k, x in enumerate(out):
            st.mem[split(ptradd(dst, k))] = x
        st.mem[split(ptradd(dst, len(out)))] = ZERO
        return [Outcome("ret", I(len(out)), st)]

    def vec(self, st, uid, bits):
        b = mk("H", uid, "bitvec")
        st.mem[(b, 0)] = I(22 << 57 | len(bits) + 1)
        for k, x in enumerate(bits):
            st.mem[(b, 8 * k + 8)] = x if x.op == "i" else mkbv([x])
        return b

    def binary(self, ip, v, st, uid, i):
        x = gen_(ip, st, v[0])
        if x.op == "z":
            n = abs(x.a[0])
            return [Outcome("ret", self.vec(st, uid, [I(int(c)) for c in bin(n)[2:]]), st)]
        if x.op == "num":
            n = x.a[1]
            return [Outcome("ret", self.vec(st, uid, [ONE] + [ibit(x.a[0], k) for k in range(n - 2, -1, -1)]), st)]
        return None

    def glength(self, ip, v, st, uid, i):
        h = st.mem.get((v[0], 0))
        return [Outcome("ret", I((h.a[0] & (1 << 57) - 1) - 1), st)] if h is not None and h.op == "i" else None

    def zeros(self, ip, v, st, uid, i):
        return [Outcome("ret", self.vec(st, uid, [ZERO] * v[0].a[0]), st)] if v[0].op == "i" else None

    def gtovec(self, ip, v, st, uid, i):
        x = gen_(ip, st, v[0])
        return [Outcome("ret", self.vec(st, uid, [ZERO] * v[1].a[0]), st)] if v[1].op == "i" and v[1].a[0] >= 0 and x is z(0) else None

    def h_SHA1_Init(self, ip, v, st, uid, i):
        st.mem[(mk("G", "#sha"), 0)] = mk("bytes")
        return [Outcome("ret", ONE, st)]

    def upd(self, st, p, n):
        if n.op != "i":
            return None
        return [self.ip.load(st, ptradd(p, k), 1) for k in range(n.a[0])]

    def h_SHA1_Update(self, ip, v, st, uid, i):
        b = self.upd(st, v[1], v[2])
        o = st.mem.get((mk("G", "#sha"), 0))
        if b is None or o is None:
            return None
        st.mem[(mk("G", "#sha"), 0)] = mk("bytes", *(list(o.a) + b))
        return [Outcome("ret", ONE, st)]

    def fin(self, st, p, data):
        b, o = split(p)
        for k in range(20):
            st.mem[(b, o + k)] = mk("hashbyte", data, k)

    def h_SHA1_Final(self, ip, v, st, uid, i):
        o = st.mem.get((mk("G", "#sha"), 0))
        if o is None:
            return None
        self.fin(st, v[0], o)
        return [Outcome("ret", ONE, st)]

    def h_SHA1(self, ip, v, st, uid, i):
        b = self.upd(st, v[0], v[1])
        if b is None:
            return None
        self.fin(st, v[2], mk("bytes", *b))
        return [Outcome("ret", v[2], st)]

    def obj(self, st, bits, tag="one", sign=0, spare=0):
        """a bit string object with these bits (most significant first) and spare zero bytes behind them"""
        b = self.B.new(st, ("obj", tag), list(bits))
        n = (len(bits) + 7) // 8
        if spare:
            raw = st.mem[(b, self.B.o["bits"])]
            if raw is ZERO:
                raw = st.mem[(b, self.B.o["bits"])] = mk("H", ("obj", tag), "raw", 0)
            for k in range(n, n + spare):
                st.mem[(raw, k)] = ZERO
            st.mem[(b, self.B.o["allocated"])] = I(n + spare)
        st.mem[(b, self.B.o["sign"])] = I(sign)
        raw = st.mem[(b, self.B.o["bits"])]
        if raw is not ZERO:
            self.size[raw] = n + spare
        return b

    def call(self, fn, args, st):
        f = self.m.fn(fn)
        self.ip.steps = 0
        return [(o.val, o.st) for o in self.ip.run(f.name, args, st) if o.kind == "ret"]

    def bits(self, st, b, facts):
        """bits of the object with what the path knows about them; None when unknown"""
        r = self.B.get(st, b)
        return None if r is None else [known(x, facts) for x in r]

    def pad(self, st, b):
        """the unused bits of the last byte that are not zero"""
        n = self.B.length(st, b)
        if n.op != "i" or not n.a[0] % 8:
            return []
        p = self.ip.load(st, ptradd(b, self.B.o["bits"]))
        v = bvbits(self.ip.load(st, ptradd(p, n.a[0] // 8), 1), 8)
        return None if v is None else [x for x in v[:8 - n.a[0] % 8] if x is not ZERO]

    def alloc(self, st, b):
        n, a = self.B.length(st, b), self.ip.load(st, ptradd(b, self.B.o["allocated"]))
        return n.op != "i" or a.op != "i" or a.a[0] >= (n.a[0] + 7) // 8


def m_name(m, i):
    try:
        return m.cname(i)
    except Exception:
        return None


def learn(st):
    """values of single bits that the path's conditions fix"""
    out = {}
    for k, v in st.facts.items():
        t, val = k, bool(v)
        if t.op == "cmp" and t.a[0] in ("eq", "ne") and len(t.a) == 3 and t.a[2].op == "i":
            x, c = t.a[1], t.a[2].a[0]
            if t.a[0] == "ne":
                val = not val
            bs = list(x.a) if x.op == "bv" else None
            if bs is None:
                continue
            free = [b for b in bs if b.op != "i"]
            if val:
                for k2, b in enumerate(bs):
                    if b.op == "ibit":
                        out[b] = ONE if c >> k2 & 1 else ZERO
            elif len(free) == 1 and free[0].op == "ibit":
                k2 = bs.index(free[0])
                rest = sum(b.a[0] << j for j, b in enumerate(bs) if b.op == "i")
                if rest == c & ~(1 << k2):
                    out[free[0]] = ZERO if c >> k2 & 1 else ONE
    return out


def known(x, facts):
    if x.op == "nbit":
        y = known(x.a[0], facts)
        return x if y.op != "i" else ONE if y is ZERO else ZERO
    return facts.get(x, x)


def neg(x):
    return nbit(x) if x.op != "i" else ONE if x is ZERO else ZERO


def sym(S, n):
    return [ibit(S, n - 1 - k) for k in range(n)]


def windows(S, n, w=5):
    """contents: all bits unknown if there are few, else a window of unknown bits on a constant background"""
    if n <= w + 2:
        yield sym(S, n)
        return
    for bg in (ZERO, ONE):
        for a in range(0, n, w):
            yield [ibit(S, k) if a <= k < a + w else bg for k in range(n)]


def shift(b, k):
    n = len(b)
    return [b[i + k] if 0 <= i + k < n else ZERO for i in range(n)]


def rotate(b, k):
    n = len(b)
    return [b[(i + k) % n] for i in range(n)]


def lengthen(b, k):
    return [ZERO] * k + b if k > 0 else b + [ZERO] * -k


def shorten(b, k):
    return b[k:] if k > 0 else b[:len(b) + k] if k < 0 else b


def right(a, b, f):
    n = max(len(a), len(b))
    a, b = [ZERO] * (n - len(a)) + a, [ZERO] * (n - len(b)) + b
    return [f(x, y) for x, y in zip(a, b)]


def or_(x, y):
    return y if x is ZERO or x is y else x if y is ZERO else ONE if ONE in (x, y) else mk("or1", x, y)


def and_(x, y):
    return ZERO if ZERO in (x, y) else y if x is ONE or x is y else x if y is ONE else mk("and1", x, y)


class Check:
    def __init__(self, m, only=None):
        self.m, self.obs, self.und, self.only = m, [], 0, only
        self.seen = set()
        self.fns = set()
        self.names = {f.dname for f in m.repo_fns() if os.path.basename(f.file) == "bits.c"}
        self.R = Run(m)

    def have(self, fn):
        return fn in self.names and (self.only is None or fn in self.only)

    def ob(self, ok, fn, what, got):
        self.fns.add(fn)
        self.obs.append((bool(ok), fn, fn, "%s gives %s" % (what, got), [], what))

    def exec(self, fn, args, st, what):
        try:
            r = self.R.call(fn, args, st)
        except AnalysisError:
            r = None
        for x in sorted(self.R.oob):
            self.ob(False, fn, what or fn, "an access to " + x)
        self.R.oob.clear()
        if not r:
            self.und += 1
            return []
        return r

    def string(self, fn, s, b, want, what, pad=True):
        """the object b holds the wanted bits"""
        f = learn(s)
        got = self.R.bits(s, b, f)
        if got is None:
            self.und += 1
            return
        w = [known(x, f) for x in want]
        if got != w and any(x.op not in ("i", "ibit", "nbit") for x in got + w):
            self.und += 1
            return
        ok = got == w
        self.ob(ok, fn, what, "%d bits: %s instead of %s" % (len(got), show(got), show(w)))
        if pad:
            p = self.R.pad(s, b)
            if p is not None:
                self.ob(not p, fn, what + " (unused bits)", "nonzero bits behind the string")
            self.history(fn, s, b, got, what)
        self.ob(self.R.alloc(s, b), fn, what + " (size)", "fewer bytes than the bits need")

    def history(self, fn, s, b, bits, what):
        """what an operation leaves in the spare bytes does not come back when the string grows again"""
        ip, n, a = self.R.ip, len(bits), self.R.ip.load(s, ptradd(b, self.R.B.o["allocated"]))
        if a.op != "i" or not (n + 7) // 8 < a.a[0] < n // 8 + 40 or what in self.seen or not self.R.m.fn("bits_lengthenz"):
            return
        self.seen.add(what)
        k = 8 * a.a[0] - n
        t = s.copy()
        for v, q in self.exec("bits_lengthenz", [b, I(-k)], t, what):
            got = self.R.bits(q, b, learn(q))
            if got is None or len(got) != n + k:
                self.und += 1
                continue
            self.ob(not any(x is not ZERO for x in got[n:]), fn, what + ", then lengthened by %d bits" % k, "the new bits %s" % show(got[n:]))

    def value(self, fn, s, v, bits, sign, what):
        """v is the integer with these bits"""
        f = learn(s)
        x = gen_(self.R.ip, s, v)
        b = [known(y, f) for y in bits]
        if x.op == "stoi":
            x = x.a[0]
        if x.op == "z" and all(y.op == "i" for y in b):
            n = int("".join(str(y.a[0]) for y in b) or "0", 2) * (-1 if sign else 1)
            h, g = s.mem.get((x, 8)), x.a[0]
            if h is not None:           # the sign was set afterwards
                k = [y for y in h.a if isinstance(y, T) and y.op == "i"] if h.op == "or" else []
                if len(k) != 1 or not n:
                    return
                g = {3: -abs(g), 1: abs(g)}.get(k[0].a[0] >> 62 & 3, g)
            self.ob(g == n, fn, what, "%d instead of %d" % (g, n))
        else:
            self.und += 1


def show(b):
    return "".join(str(x.a[0]) if x.op == "i" else "<%s>" % pretty(x).replace("ibit", "") for x in b)[:120]


def forms(fn, K, st, bits, tag, run):
    pass


def part(m, only):
    K = Check(m, only)
    R = K.R
    quick = os.environ.get("VERIF_TIER", "quick") == "quick"
    LEN = list(range(0, 18)) + ([24, 31, 33, 160] if quick else list(range(18, 42)) + [63, 64, 65, 159, 160, 161, 168, 320, 521])
    rng = random.Random(5)
    S = State

    def unary(name, amounts, spec, inplace=None, lens=LEN, ok=lambda n, k: True):
        """name(bits, amount) and its in-place form name + z"""
        for fn, z_ in ((name, False), (name + "z", True)):
            if not K.have(fn):
                continue
            for n in lens:
                for k in amounts(n):
                    if not ok(n, k):
                        continue
                    for spare in (0, 2) if n in (0, 7, 8, 9, 16) else (0,):
                        st = S()
                        b = R.obj(st, sym(X, n), spare=spare)
                        a = [b] + ([I(k)] if k is not None else [])
                        what = "%s of %d bits%s%s" % (fn, n, "" if k is None else " by %d" % k, " with spare bytes" if spare else "")
                        for v, s in K.exec(fn, a, st, what):
                            r = b if z_ else v
                            K.string(fn, s, r, spec(sym(X, n), k), what)
                            if not z_:
                                K.string(fn, s, b, sym(X, n), what + " (operand)")

    near = lambda n: sorted({k for k in (0, 1, -1, 2, -2, 7, -7, 8, -8, 9, -9, 15, -17, n - 1, 1 - n, n, -n) if abs(k) <= max(n, 17)})
    inside = lambda n, k: abs(k) <= n
    unary("bits_shift", near, shift)
    unary("bits_shiftr", near, rotate, ok=lambda n, k: n > 0)
    unary("bits_lengthen", near, lengthen)
    unary("bits_shorten", near, shorten, ok=inside)
    unary("bits_shifti", near, lambda b, k: lengthen(b, -k) if k > 0 else shorten(b, k), ok=lambda n, k: k >= -n)
    none = lambda n: (None,)
    unary("bits_not", none, lambda b, k: [neg(x) for x in b])
    unary("bits_rot", none, lambda b, k: b[::-1])

    for fn in ("bits_copy", "bits_cpy"):
        if not K.have(fn):
            continue
        for n in LEN:
            for d in (None,) if fn == "bits_copy" else (0, 3, 8, 9, 20, n):
                for sign in (0, 1):
                    st = S()
                    b = R.obj(st, sym(X, n), sign=sign)
                    t = R.obj(st, sym(Y, d), "two") if d is not None else None
                    what = "%s of %d bits%s" % (fn, n, "" if d is None else " over %d bits" % d)
                    for v, s in K.exec(fn, [b] if t is None else [t, b], st, what):
                        r = v if t is None else t
                        if t is not None and not n:         # nothing is copied from an empty string
                            K.string(fn, s, r, sym(Y, d), what)
                            continue
                        K.string(fn, s, r, sym(X, n), what)
                        K.string(fn, s, b, sym(X, n), what + " (operand)")
                        if n:
                            p, q = (R.ip.load(s, ptradd(x, R.B.o["bits"])) for x in (r, b))
                            K.ob(p is not q, fn, what + " (own memory)", "an object sharing the bytes of its source")
                        sg = R.ip.load(s, ptradd(r, R.B.o["sign"]), 1)
                        if sg.op == "i":
                            K.ob(sg.a[0] & 1 == sign, fn, what + " (sign)", "sign %d" % sg.a[0])
    if K.have("bits_new"):
        for n in LEN:
            for v, s in K.exec("bits_new", [I(n)], S(), ""):
                K.string("bits_new", s, v, [ZERO] * n, "bits_new(%d)" % n)
    if K.have("bits_new_rand"):
        for n in LEN:
            for v, s in K.exec("bits_new_rand", [I(n)], S(), ""):
                got = R.bits(s, v, {})
                if got is None:
                    K.und += 1
                    continue
                own = {x for x in got if x.op == "ibit"}
                K.ob(len(got) == n == len(own), "bits_new_rand", "bits_new_rand(%d)" % n, "bits that are not drawn independently: %s" % show([x if x.op == "i" else mk("sym", "r") for x in got]))
                p = R.pad(s, v)
                if p is not None:
                    K.ob(not p, "bits_new_rand", "bits_new_rand(%d) (unused bits)" % n, "nonzero bits behind the string")
    for fn in ("bits_concat", "bits_concatz"):
        if not K.have(fn):
            continue
        for n in (0, 1, 5, 7, 8, 9, 16, 23, 160):
            for k in (0, 1, 4, 7, 8, 9, 12, 17):
                for third in (None, 3):
                    for w in windows(Y, k, 3):
                        st = S()
                        a, b = R.obj(st, sym(X, n)), R.obj(st, w, "two")
                        args, want = [a, b], sym(X, n) + w
                        if third is not None:
                            args.append(R.obj(st, [ONE, ZERO, ONE], "three"))
                            want = want + [ONE, ZERO, ONE]
                        what = "%s of %d, %d%s bits" % (fn, n, k, "" if third is None else ", 3")
                        for v, s in variadic(K, fn, args, st, what):
                            K.string(fn, s, a if fn.endswith("z") else v, want, what)
    for fn, f in (("bits_or", or_), ("bits_and", and_)):
        if not K.have(fn):
            continue
        for n in (0, 1, 7, 8, 9, 17):
            for k in (0, 1, 7, 8, 9, 17):
                for const in (0, 1):
                    st = S()
                    w = [ONE if rng.random() < .5 else ZERO for _ in range(k)]
                    u = sym(X, n)
                    a, b = R.obj(st, w if const else u), R.obj(st, u if const else w, "two")
                    what = "%s of %d and %d bits" % (fn, n, k)
                    for v, s in K.exec(fn, [a, b], st, what):
                        K.string(fn, s, v, right(u, w, f), what)
    # conversions
    for n in LEN:
        for sign in (0, 1):
            for fn in ("bits_to_i",):
                if K.have(fn):
                    for w in windows(X, n, 3):
                        st = S()
                        b = R.obj(st, w, sign=sign)
                        for v, s in K.exec(fn, [b], st, ""):
                            K.value(fn, s, v, w, sign, "%s of %d bits" % (fn, n))
            for fn in ("bits_to_hex", "bits_to_bin"):
                if not K.have(fn):
                    continue
                for w in windows(X, n, 99):
                    st = S()
                    b = R.obj(st, sym(X, n), sign=sign)
                    what = "%s of %d bits%s" % (fn, n, ", negative" if sign else "")
                    for v, s in K.exec(fn, [b], st, what):
                        text(K, fn, s, v, sym(X, n), sign, what)
        for fn in ("bits_to_raw", "bits_to_bitvec", "bits_to_rawlen"):
            if not K.have(fn):
                continue
            for w in windows(X, n, 3 if fn == "bits_to_bitvec" else 999):
                st = S()
                b = R.obj(st, w)
                what = "%s of %d bits" % (fn, n)
                for v, s in K.exec(fn, [b], st, what):
                    if fn == "bits_to_rawlen":
                        K.ob(v.op != "i" or v.a[0] == (n + 7) // 8, fn, what, pretty(v))
                        continue
                    f = learn(s)
                    if fn == "bits_to_raw":
                        if n:
                            got = R.B.raw(s, v, n)
                            if got is None:
                                K.und += 1
                            else:
                                K.ob(got == w, fn, what, show(got))
                    else:
                        got = [bit_of(R.ip.load(s, ptradd(v, 8 * k + 8))) for k in range(n)]
                        if None in got:
                            K.und += 1
                        else:
                            K.ob([known(x, f) for x in got] == [known(x, f) for x in w], fn, what, show(got))
        if K.have("bits_sha1"):
            st = S()
            b = R.obj(st, sym(X, n), spare=1 if n % 3 == 0 else 0)
            h = mk("A", ("obj", "hash"))
            for v, s in K.exec("bits_sha1", [b, h], st, ""):
                got = [R.ip.load(s, ptradd(h, k), 1) for k in range(20)]
                if any(g.op != "hashbyte" for g in got):
                    K.und += 1
                    continue
                w = (sym(X, n) + [ZERO] * 7)[:(n + 7) // 8 * 8]
                want = mk("bytes", *[mkbv(w[k:k + 8][::-1]) for k in range(0, len(w), 8)])
                K.ob(all(g is mk("hashbyte", want, k) for k, g in enumerate(got)), "bits_sha1", "bits_sha1 of %d bits" % n, "the hash of %s" % pretty(got[0].a[0])[:160])
        for fn in ("bits_from_raw",):
            if K.have(fn):
                st = S()
                raw = mk("H", ("obj", "raw"), "src")
                full = sym(X, (n + 7) // 8 * 8)
                for k in range((n + 7) // 8):
                    st.mem[(raw, k)] = mkbv(full[8 * k:8 * k + 8][::-1])
                what = "%s of %d bits" % (fn, n)
                for v, s in K.exec(fn, [raw, I(n)], st, what):
                    K.string(fn, s, v, full[:n], what, pad=False)
        for fn in ("bits_from_i", "bits_from_i_len"):
            if not K.have(fn):
                continue
            for val in numbers(n, rng):
                for ln in (None,) if fn == "bits_from_i" else (n, n + 1, n + 5, n + 8, n + 13):
                    for sg in (1, -1):
                        st = S()
                        what = "%s of %s%s" % (fn, hex(sg * val), "" if ln is None else ", %d bits" % ln)
                        for v, s in K.exec(fn, [z(sg * val)] + ([] if ln is None else [I(ln)]), st, what):
                            bl = max(1, val.bit_length()) if ln is None else ln
                            got = R.bits(s, v, {})
                            if got is None or any(x.op != "i" for x in got):
                                K.und += 1
                                continue
                            nv = int("".join(str(x.a[0]) for x in got) or "0", 2)
                            K.ob(nv == val and (ln is None and len(got) in (val.bit_length(), bl) or len(got) == ln), fn, what, "%d bits: %s" % (len(got), hex(nv)))
                            q = R.ip.load(s, ptradd(v, R.B.o["sign"]), 1)
                            if q.op == "i" and val:
                                K.ob(q.a[0] & 1 == (sg < 0), fn, what + " (sign)", "sign %d" % q.a[0])
        for fn, base in (("bits_from_hex", 16), ("bits_from_bin", 2)):
            if not K.have(fn):
                continue
            for j in range(3):
                ch = "0123456789abcdefABCDEF" if base == 16 else "01"
                t = "".join(rng.choice(ch) for _ in range(n)) if j else (ch * 8)[:n] if n < 60 else ch[0] * n
                st = S()
                what = "%s of \"%s\"" % (fn, t)
                for v, s in K.exec(fn, [cstrings.put(st, t, "digits")], st, what):
                    w = 4 if base == 16 else 1
                    val = int(t or "0", base)
                    K.string(fn, s, v, [I(val >> k & 1) for k in range(w * len(t) - 1, -1, -1)], what)
        if K.have("bits_from_bitvec"):
            for w in windows(X, n, 3):
                st = S()
                vec = R.vec(st, ("obj", "v"), w)
                for v, s in K.exec("bits_from_bitvec", [vec], st, ""):
                    K.string("bits_from_bitvec", s, v, w, "bits_from_bitvec of %d bits" % n)
        if K.have("bits_eq"):
            equal(K, n, rng)
    return K.obs, K.und, K.fns


MOD = None


def job(names):
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeLimit()))
    signal.alarm(200 if os.environ.get("VERIF_TIER", "quick") == "quick" else 700)
    try:
        r = part(MOD, names)
    except TimeLimit:
        r = [], 1, set()
    signal.alarm(0)
    return r


class TimeLimit(BaseException):
    pass


# functions that the derivation of curves from seeds is made of
SEEDS = ("bits_to_i", "bits_concatz", "bits_copy", "bits_cpy", "bits_from_hex", "bits_from_i", "bits_from_i_len", "bits_from_raw", "bits_lengthenz", "bits_new_rand", "bits_sha1",
         "bits_shortenz", "bits_to_hex")


def api(m):
    slow = ["bits_to_i", "bits_concat", "bits_to_bitvec", "bits_concatz", "bits_from_bitvec"]
    n = {f.dname for f in m.repo_fns() if os.path.basename(f.file) == "bits.c"}
    return [x for x in slow if x in n] + sorted(n - set(slow))


def jobs(m, names):
    global MOD
    MOD = m
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for r in pool.imap(job, [{x} for x in names]):
            yield r


def rule(c):
    m = load_module()
    und, fns = 0, set()
    for obs, u, f in jobs(m, api(m)):
        und, fns = und + u, fns | f
        for o in obs:
            c.obligation(*o)
    c.cov["functions"] = sorted(fns)
    c.cov["undecided"] = und


def bit_of(v):
    if v.op == "i":
        return v if v in (ZERO, ONE) else None
    if v.op == "bv" and len(v.a) == 1:
        return v.a[0]
    return None


def numbers(n, rng):
    out = {(1 << n) - 1, 1 << n >> 1}
    for _ in range(2):
        out.add(rng.getrandbits(n) if n else 0)
    return sorted(out)


def equal(K, n, rng):
    """equal exactly when length, sign and every bit are"""
    R = K.R
    fn = "bits_eq"
    base = [ONE if rng.random() < .5 else ZERO for _ in range(n)]
    for j in [None] + sorted({0, 1, 6, 7, 8, n // 2, n - 2, n - 1} & set(range(n))):
        for sign in (0, 1) if j is None else (0,):
            for junk in (0, 1) if n % 8 else (0,):
                st = State()
                other = [neg(x) if k == j else x for k, x in enumerate(base)]
                a, b = R.obj(st, base), R.obj(st, other, "two", sign=sign)
                if junk:
                    p = R.ip.load(st, ptradd(b, R.B.o["bits"]))
                    v = R.ip.load(st, ptradd(p, n // 8), 1)
                    st.mem[(p, n // 8)] = I(v.a[0] | (1 << 8 - n % 8) - 1)
                want = j is None and not sign
                what = "bits_eq of two strings of %d bits that %s" % (n, "are equal" if want else "differ in sign" if sign else "differ in bit %d" % j)
                for v, s in K.exec(fn, [a, b], st, what):
                    if v.op != "i":
                        K.und += 1
                    else:
                        K.ob(bool(v.a[0] & 1) == want, fn, what, str(v.a[0]))
    if n:
        st = State()
        a, b = R.obj(st, base), R.obj(st, base[:-1], "two")
        for v, s in K.exec(fn, [a, b], st, ""):
            if v.op == "i":
                K.ob(not v.a[0] & 1, fn, "bits_eq of %d and %d bits" % (n, n - 1), "true")


def variadic(K, fn, args, st, what):
    """call with a null-terminated argument list"""
    f = K.m.fn(fn)
    return K.exec(fn, args + [ZERO], st, what)


def text(K, fn, s, v, bits, sign, what):
    ip = K.R.ip
    k = 0
    out = []
    if sign:
        ch = ip.load(s, v, 1)
        if ch.op == "i":
            K.ob(ch.a[0] == ord("-"), fn, what + " (sign)", "the first character %s" % ch.a[0])
        k = 1
    for _ in range(4 * len(bits) + 4):
        ch = ip.load(s, ptradd(v, k), 1)
        if ch is ZERO:
            break
        if ch.op == "hexd":
            out += (list(ch.a) + [ZERO] * 4)[:4][::-1]
        elif ch.op == "bind":
            out += [ch.a[0]]
        elif ch.op == "i" and chr(ch.a[0]) in "0123456789abcdef":
            d = int(chr(ch.a[0]), 16)
            out += [I(d >> j & 1) for j in ((3, 2, 1, 0) if fn == "bits_to_hex" else (0,))]
        else:
            K.und += 1
            return
        k += 1
    else:
        K.und += 1
        return
    want = list(bits)
    if fn == "bits_to_hex":
        want = [ZERO] * (-len(want) % 4) + want
        while len(out) > len(want) and out[0] is ZERO:
            out = out[1:]
        while len(out) < len(want) and want[0] is ZERO:
            want = want[1:]
    K.ob(out == want, fn, what, "%s instead of %s" % (show(out), show(want)))


if __name__ == "__main__":
    main("P21", __doc__, rule)
