"""Bit strings (bits_t) with unknown bits of known position, SHA-1 as an uninterpreted function; values of the resulting terms.

A byte in memory is a number or a term bv(b0, ..., b7) of bits, least significant first; a bit is 0, 1 or ibit(X, k), the k-th bit of the
integer X.  Shifts and masks of such terms are exact, so that code which reads or writes single bits is followed bit by bit; the functions of
util/bits.h are replaced by what they are specified to do with a bit string (most significant bit first)."""
import hashlib, os
from absint import *
from models import stoi, itos, G as gen_, sgn
from evalt import Eval, Unknown, Mod, integer, is_prime, jacobi


def ibit(x, k):
    return mk("ibit", x, k)


def mkbv(bs):
    """bits, least significant first"""
    bs = list(bs)
    while bs and bs[-1] is ZERO:
        bs.pop()
    if all(b.op == "i" for b in bs):
        return I(sum(b.a[0] << k for k, b in enumerate(bs)))
    return mk("bv", *bs)


def bvbits(t, n):
    """n lowest bits, or None"""
    if t.op == "i":
        return [ONE if t.a[0] >> k & 1 else ZERO for k in range(n)]
    if t.op == "bv":
        return (list(t.a) + [ZERO] * n)[:n]
    return None


class BitInterp(Interp):
    def binop(self, op, a, b, w, st=None):
        if a.op == "bv" or b.op == "bv":
            r = self.bitop(op, a, b, w or 64)
            if r is not None:
                return r
        return Interp.binop(self, op, a, b, w, st)

    bounded = 0         # iterations of a loop whose exit is not decided; later ones are left out
    dropped = 0

    def backedge(self, fn, args, ph, env, st, loops, work, ctx):
        le, tag, launched = loops[-1]
        if self.bounded and le.undec and tag + 1 >= self.bounded:
            self.dropped += 1
            return
        return Interp.backedge(self, fn, args, ph, env, st, loops, work, ctx)

    GENS = ("P", "z", "mod", "inv", "stoi", "vec")

    def icmp(self, pred, a, b, st=None):
        if pred in ("eq", "ne") and a is not b and all(x.op in self.GENS or x.op == "call" and x.a[0] in ("nextprime", "genrand") for x in (a, b)):
            return I(int(pred == "ne"))         # two PARI values computed at different places are two objects
        return Interp.icmp(self, pred, a, b, st)

    def bitop(self, op, a, b, w):
        if op in ("mul", "and", "or", "xor", "add") and b.op == "bv" and a.op != "bv":
            a, b = b, a
        if op in ("shl", "lshr", "ashr", "mul", "udiv", "sdiv", "urem"):
            if b.op != "i" or a.op != "bv":
                return None
            k = b.a[0]
            if op in ("mul", "udiv", "sdiv", "urem"):
                if k <= 0 or k & (k - 1):
                    return None
                if op == "urem":
                    return mkbv(a.a[:k.bit_length() - 1])
                op, k = "shl" if op == "mul" else "lshr", k.bit_length() - 1
            if op == "shl":
                return mkbv(([ZERO] * k + list(a.a))[:w])
            return mkbv(a.a[k:])
        x, y = bvbits(a, w), bvbits(b, w)
        if x is None or y is None:
            return None
        out = []
        if op == "add" and all(p is ZERO or q is ZERO for p, q in zip(x, y)):
            op = "or"
        for p, q in zip(x, y):
            if p.op != "i":
                p, q = q, p         # p constant if one is
            if op == "and":
                r = ZERO if p is ZERO else q if p is ONE or p is q else None
            elif op == "or":
                r = q if p is ZERO or p is q else ONE if p is ONE else None
            elif op == "xor":
                r = q if p is ZERO else ZERO if p is q else nbit(q) if p is ONE else None
            else:
                return None
            if r is None:
                return None
            out.append(r)
        return mkbv(out)

    def add(self, a, b, w=64):
        if a.op == "bv" or b.op == "bv":
            r = self.bitop("add", a, b, w or 64)
            if r is not None:
                return r
        return Interp.add(self, a, b, w)

    def cast(self, op, v, w, sw):
        if op == "trunc":
            return mkbv(v.a[:w])
        if op == "sext" and len(v.a) >= sw:
            return mkbv(list(v.a[:sw]) + [v.a[sw - 1]] * (w - sw))
        return v


def nbit(b):
    return b.a[0] if b.op == "nbit" else mk("nbit", b)


class Bits:
    """models of the functions on bit strings for one interpreter"""

    def __init__(self, ip):
        self.ip, m = ip, ip.m
        self.size = {}                  # integer term -> number of bits that hold it
        self.o = {k: m.off("bits_t", k) for k in ("bits", "bitlen", "allocated", "sign")}
        self.hexlen = 160
        H = ip.hooks
        for f in m.repo_fns():
            if os.path.basename(f.file) == "bits.c" and f.dname not in ip.hooks:
                H[f.dname] = self.unknown(f.dname)
        for n in dir(self):
            if n.startswith("h_"):
                H[n[2:]] = self.wrap(getattr(self, n), H.get(n[2:]))

        H["mpcmp"] = H["gcmp"] = self.wrap(lambda v, st, uid: sgn(ip, psub(gen_(ip, st, v[0]), gen_(ip, st, v[1]))))
        for n in ("mod2", "mod4", "mod8", "mod16", "mod32", "Mod2", "Mod4", "Mod8", "Mod16", "Mod32"):
            H[n] = self.wrap(lambda v, st, uid, n=n: mk("call", n.lower(), gen_(ip, st, v[0])))
        for n in ("rdivii", "rdivis", "rdivsi", "rdivss"):
            H[n] = self.wrap(lambda v, st, uid, n=n: mk("call", "rdivii", stoi(v[0]) if n[4] == "s" else gen_(ip, st, v[0]), stoi(v[1]) if n[5] == "s" else gen_(ip, st, v[1])))
        H["str_is_hex"] = lambda ip, v, st, uid, i: [Outcome("ret", mk("H", uid, "hexdigits"), st)]
        for n in ("gfloor", "floorr", "floori", "gceil", "ceilr", "gtrunc", "truncr", "ground", "roundr"):
            H[n] = self.wrap(lambda v, st, uid, n=n: self.rounded(v, st, n))
        for n in ("divii", "divis", "divsi", "diviu", "truedivii", "gdivent"):
            H[n] = self.wrap(lambda v, st, uid, n=n: self.quotient(v, st, n))

    def rounded(self, v, st, n):
        x = gen_(self.ip, st, v[0])
        if x.op == "z":
            return x
        if x.op == "call" and x.a[0] in ("exdiv", "rdivii", "gdiv", "fdiv") and x.a[1].op == "z" and x.a[2].op == "z" and x.a[2].a[0] > 0 <= x.a[1].a[0]:
            a, b = x.a[1].a[0], x.a[2].a[0]
            return z(-(-a // b) if "ceil" in n else (2 * a + b) // (2 * b) if "round" in n else a // b)
        return None

    def quotient(self, v, st, n):
        a = stoi(v[0]) if n == "divsi" else gen_(self.ip, st, v[0])
        b = stoi(v[1]) if n[-1] in "su" else gen_(self.ip, st, v[1])
        if a.op == "z" and b.op == "z" and b.a[0] > 0 <= a.a[0]:
            return z(a.a[0] // b.a[0])
        return None

    def unknown(self, name):
        """bits that are not known: an unknown result, unknown memory"""
        def h(ip, v, st, uid, i):
            t = mk("call", name, *v, uid)
            for x in v:
                if x.op in ("H", "A", "p") and name.endswith(("z", "cpy", "sha1")):
                    ip.havoc(st, base_of(x))
            return [Outcome("ret", t, st)]
        return h

    def wrap(self, f, other=None):
        def h(ip, v, st, uid, i):
            r = f(v, st, uid)
            if r is None:
                return other(ip, v, st, uid, i) if other else None
            return r if isinstance(r, list) else [Outcome("ret", r, st)]
        return h

    # -------------------------------------------------------------------- objects
    def new(self, st, uid, bits, tag="bits"):
        """bits: most significant first"""
        b = mk("H", uid, tag)
        self.fill(st, b, uid, bits)
        return b

    def fill(self, st, b, uid, bits):
        raw = mk("H", uid, "raw", len(bits))
        for k in [k for k in st.mem if k[0] is raw]:
            del st.mem[k]
        n = (len(bits) + 7) // 8
        for j in range(n):
            byte = (bits[8 * j:8 * j + 8] + [ZERO] * 8)[:8]
            st.mem[(raw, j)] = mkbv(byte[::-1])
        self.head(st, b, raw if n else ZERO, I(len(bits)), I(n))

    def head(self, st, b, raw, n, alloc):
        st.mem[(b, self.o["bits"])] = raw
        st.mem[(b, self.o["bitlen"])] = n
        st.mem[(b, self.o["allocated"])] = alloc
        st.mem[(b, self.o["sign"])] = ZERO

    def length(self, st, b):
        return self.ip.load(st, ptradd(b, self.o["bitlen"]))

    def raw(self, st, p, n):
        """n bits from the bytes at p, or None"""
        out = []
        for j in range((n + 7) // 8):
            v = self.ip.load(st, ptradd(p, j), 1)
            bs = bvbits(v, 8)
            if bs is None:
                return None
            out += bs[::-1]
        return out[:n]

    def get(self, st, b):
        """the bits of the object, or None"""
        n = self.length(st, b)
        if n.op != "i":
            return None
        if not n.a[0]:
            return []
        p = self.ip.load(st, ptradd(b, self.o["bits"]))
        return self.raw(st, p, n.a[0])

    def sized(self, x):
        if x in self.size:
            return self.size[x]
        if x.op == "sha1":
            return 160
        if x.op == "mod" and x.a[1].op == "z" and x.a[1].a[0] > 0 and not x.a[1].a[0] & (x.a[1].a[0] - 1):
            return x.a[1].a[0].bit_length() - 1
        if x.op == "z" and x.a[0] >= 0:
            return x.a[0].bit_length()
        return None

    def ofint(self, x, n):
        """n bits of the non-negative integer x < 2^n, most significant first"""
        if x.op == "z":
            return [ONE if x.a[0] >> k & 1 else ZERO for k in range(n - 1, -1, -1)]
        self.size.setdefault(x, n)
        return [ibit(x, k) for k in range(n - 1, -1, -1)]

    def toint(self, bits):
        while bits and bits[0] is ZERO:
            bits = bits[1:]
        if bits and bits[0].op == "ibit":
            x = bits[0].a[0]
            n = self.sized(x)
            if n == len(bits) and all(b is ibit(x, n - 1 - k) for k, b in enumerate(bits)):
                return x
        return stoi(mkbv(bits[::-1]))

    # -------------------------------------------------------------------- models
    def h_bits_new(self, v, st, uid):
        return self.new(st, uid, [ZERO] * v[0].a[0]) if v[0].op == "i" else None

    def h_bits_copy(self, v, st, uid):
        b = self.get(st, v[0])
        if b is None:
            n = self.length(st, v[0])
            if n.op == "short":
                r = mk("H", uid, "bits")
                self.head(st, r, mk("H", uid, "raw"), n, n)
                return r
            return None
        return self.new(st, uid, b)

    def h_bits_cpy(self, v, st, uid):
        b = self.get(st, v[1])
        if b is None:
            return None
        self.fill(st, v[0], uid, b)
        return mk("void")

    def h_bits_from_hex(self, v, st, uid):
        x = mk("rnd", "hex", uid)
        return self.new(st, uid, self.ofint(x, self.hexlen))

    def h_bits_from_i(self, v, st, uid):
        x = gen_(self.ip, st, v[0])
        if x.op == "z":
            return self.new(st, uid, self.ofint(x, abs(x.a[0]).bit_length()))
        n = self.sized(x)
        if n is None and x.op == "call" and x.a[0] == "genrand" and x.a[1].op == "vec":
            lo, hi = x.a[1].a[1:3]
            if hi.op == "z" and lo.op == "z" and hi.a[0].bit_length() - 1 == lo.a[0].bit_length():
                return self.new(st, uid, self.ofint(x, lo.a[0].bit_length()))
        if n is None:
            return None
        s2 = st.copy()
        full = self.new(st, uid, self.ofint(x, n))
        st.facts[mk("bool", "fullsize", x, n)] = True
        s2.facts[mk("bool", "fullsize", x, n)] = False
        b = mk("H", uid, "bits")
        t = mk("short", x, n)
        s2.iv[t] = (0, n - 1)
        self.head(s2, b, mk("H", uid, "raw"), t, t)
        return [Outcome("ret", full, st), Outcome("ret", b, s2)]

    def h_bits_from_i_len(self, v, st, uid):
        """exactly as many bits as asked for; the lowest ones of a number that has more are lost"""
        x = gen_(self.ip, st, v[0])
        n = self.sized(x)
        if v[1].op != "i":
            return None
        k = v[1].a[0]
        if n is not None and n <= k:
            return self.new(st, uid, [ZERO] * (k - n) + self.ofint(x, n))
        if x.op not in ("P", "stoi", "z", "mod", "rnd", "call"):
            return None
        s2 = st.copy()
        fits = mk("bool", "fits", x, k)
        top = mk("topbits", x, k)
        st.facts[fits], s2.facts[fits] = True, False
        full = self.new(st, uid, [ibit(x, j) for j in range(k - 1, -1, -1)])
        part = self.new(s2, uid, [ibit(top, j) for j in range(k - 1, -1, -1)])
        return [Outcome("ret", full, st), Outcome("ret", part, s2)]

    def h_bits_from_raw(self, v, st, uid):
        if v[1].op != "i":
            return None
        b = self.raw(st, v[0], v[1].a[0])
        return None if b is None else self.new(st, uid, b)

    def h_bits_to_i(self, v, st, uid):
        b = self.get(st, v[0])
        if b is None:
            n = self.length(st, v[0])
            return n.a[0] if n.op == "short" else None
        return self.toint(b)

    def h_bits_to_raw(self, v, st, uid):
        b = self.get(st, v[0])
        if not b:
            return None
        raw = mk("H", uid, "rawcopy")
        for j in range((len(b) + 7) // 8):
            st.mem[(raw, j)] = mkbv((b[8 * j:8 * j + 8] + [ZERO] * 8)[:8][::-1])
        return raw

    def h_bits_concatz(self, v, st, uid):
        r = self.get(st, v[0])
        if r is None:
            return None
        for x in v[1:]:
            if x is ZERO:
                break
            b = self.get(st, x)
            if b is None:
                return None
            r = r + b
        self.fill(st, v[0], uid, r)
        return mk("void")

    def h_bits_concat(self, v, st, uid):
        r = []
        for x in v:
            if x is ZERO:
                break
            b = self.get(st, x)
            if b is None:
                return None
            r = r + b
        return self.new(st, uid, r)

    def change(self, v, st, uid, f, copy):
        b = self.get(st, v[0])
        if b is None or len(v) > 1 and v[1].op != "i":
            return None
        r = f(b, v[1].a[0] if len(v) > 1 else None)
        if r is None:
            return None
        if copy:
            return self.new(st, uid, r)
        self.fill(st, v[0], uid, r)
        return mk("void")

    @staticmethod
    def shorten(b, n):
        return b if not n else b[n:] if 0 < n <= len(b) else b[:n] if n < 0 and -n <= len(b) else None

    @staticmethod
    def shift(b, n):
        return b[n:] + [ZERO] * min(n, len(b)) if n > 0 else ([ZERO] * min(-n, len(b)) + b)[:len(b)]

    def h_bits_shortenz(self, v, st, uid):
        return self.change(v, st, uid, self.shorten, False)

    def h_bits_shorten(self, v, st, uid):
        return self.change(v, st, uid, self.shorten, True)

    def h_bits_shiftz(self, v, st, uid):
        return self.change(v, st, uid, self.shift, False)

    def h_bits_shift(self, v, st, uid):
        return self.change(v, st, uid, self.shift, True)

    @staticmethod
    def lengthen(b, n):
        return [ZERO] * n + b if n > 0 else b + [ZERO] * -n

    def short(self, v, st, uid, copy):
        """a number of fewer bits than allowed is brought to its full length"""
        n = self.length(st, v[0])
        if n.op == "short" and v[1] is self.ip.sub(I(n.a[1]), n):
            b = self.ofint(n.a[0], n.a[1])
            if copy:
                return self.new(st, uid, b)
            self.fill(st, v[0], uid, b)
            return mk("void")
        return None

    def h_bits_lengthenz(self, v, st, uid):
        return self.short(v, st, uid, False) or self.change(v, st, uid, self.lengthen, False)

    def h_bits_lengthen(self, v, st, uid):
        return self.short(v, st, uid, True) or self.change(v, st, uid, self.lengthen, True)

    def h_bits_not(self, v, st, uid):
        return self.change(v, st, uid, lambda b, _: [nbit(x) if x.op != "i" else ONE if x is ZERO else ZERO for x in b], True)

    def h_bits_sha1(self, v, st, uid):
        b = self.get(st, v[0])
        if b is None:
            n = self.length(st, v[0])
            if n.op != "short":
                return None
            s = mk("sha1short", n.a[0])
            self.size[s] = 160
        else:
            by = [mkbv((b[k:k + 8] + [ZERO] * 8)[:8][::-1]) for k in range(0, len(b), 8)]
            s = mk("sha1", *by)
        base, o = split(v[1])
        for k in [k for k in st.mem if k[0] is base and isinstance(k[1], T)]:
            del st.mem[k]
        for j in range(20):
            st.mem[(base, o + j)] = mkbv([ibit(s, 160 - 8 * j - 8 + k) for k in range(8)])
        return mk("void")


class BitEval(Eval):
    """values of terms over bit strings; rnd: random integers by term"""

    def __init__(self, env, extra=None):
        Eval.__init__(self, env, self.bits)
        self.more = extra

    def bits(self, t, ev):
        op = t.op
        if op == "ibit":
            return integer(ev(t.a[0])) >> t.a[1] & 1
        if op == "nbit":
            return 1 - ev(t.a[0])
        if op == "bv":
            return sum(ev(b) << k for k, b in enumerate(t.a))
        if op == "stoi":
            return integer(ev(t.a[0]))
        if op == "sha1":
            return int.from_bytes(hashlib.sha1(bytes(ev(b) & 255 for b in t.a)).digest(), "big")
        if op == "sha1short":
            x = integer(ev(t.a[0]))
            n = (x.bit_length() + 7) // 8
            return int.from_bytes(hashlib.sha1((x << (-x.bit_length() % 8)).to_bytes(n, "big")).digest(), "big")
        if op == "short":
            return integer(ev(t.a[0])).bit_length()
        if op == "bool" and t.a[0] == "fullsize":
            return integer(ev(t.a[1])).bit_length() == t.a[2]
        if op == "bool" and t.a[0] == "fits":
            return integer(ev(t.a[1])).bit_length() <= t.a[2]
        if op == "topbits":
            x = integer(ev(t.a[0]))
            return x >> max(0, x.bit_length() - t.a[1])
        if op == "inv":
            p = integer(ev(t.a[1]))
            x = ev(t.a[0])
            x = x.v if isinstance(x, Mod) else integer(x) % p
            try:
                return pow(x, -1, p)
            except ValueError:
                return 0            # (NULL)
        if op == "call":
            f, a = t.a[0], [x for x in t.a[1:] if isinstance(x, T)]
            if f in ("nextprime", "precprime"):
                x = integer(ev(a[0]))
                d = 1 if f == "nextprime" else -1
                while not is_prime(x):
                    x += d
                    if x < 2 and d < 0:
                        return 0
                return x
            if f in ("gceil", "gfloor", "floorr", "ceilr", "floori"):
                import math
                x = ev(a[0])
                return (math.ceil if "ceil" in f else math.floor)(x)
            if f in ("rdivii", "rdivis", "rdivsi"):
                from fractions import Fraction
                return Fraction(integer(ev(a[0])), integer(ev(a[1])))
            if f in ("ceil_safe",):
                raise Unknown
        return self.more(t, ev) if self.more else None
