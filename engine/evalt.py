"""Values of terms at sample points: integers, rationals (Fraction), residues (Mod), truth values.

Used to test identities between formulas extracted from the program (two rational functions that agree at random points of a large
domain are equal) and to tell whether the conditions of a path can hold at a sample point.  Nothing of the program is executed."""
from fractions import Fraction
from term import *


class Unknown(Exception):
    pass


class Mod:
    __slots__ = ("v", "p")

    def __init__(s, v, p):
        s.p = p
        if isinstance(v, Fraction):
            v = v.numerator * pow(v.denominator, -1, p)
        s.v = v % p

    def _o(s, o):
        if isinstance(o, Mod):
            if o.p != s.p:
                raise Unknown
            return o.v
        if isinstance(o, Fraction):
            return o.numerator * pow(o.denominator, -1, s.p) % s.p
        if isinstance(o, int):
            return o % s.p
        raise Unknown

    def __add__(s, o): return Mod(s.v + s._o(o), s.p)
    __radd__ = __add__

    def __mul__(s, o): return Mod(s.v * s._o(o), s.p)
    __rmul__ = __mul__

    def __pow__(s, n): return Mod(pow(s.v, n, s.p), s.p)
    def __neg__(s): return Mod(-s.v, s.p)
    def __sub__(s, o): return Mod(s.v - s._o(o), s.p)
    def __rsub__(s, o): return Mod(s._o(o) - s.v, s.p)

    def inv(s):
        if s.v == 0:
            raise ZeroDivisionError
        return Mod(pow(s.v, -1, s.p), s.p)


def jacobi(a, n):
    """Kronecker symbol"""
    if n == 0:
        return 1 if abs(a) == 1 else 0
    r = 1
    if n < 0:
        n = -n
        if a < 0:
            r = -1
    k = 0
    while n % 2 == 0:
        n //= 2
        k += 1
    if k:
        if a % 2 == 0:
            return 0
        if k % 2 and a % 8 in (3, 5):
            r = -r
    a %= n
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


_SM = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)


def is_prime(n):
    if n < 2:
        return False
    for p in _SM:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in _SM:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def factor(n):
    n, r, p = abs(n), {}, 2
    while p * p <= n:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def isqrt_exact(n):
    from math import isqrt
    if n < 0:
        return None
    r = isqrt(n)
    return r if r * r == n else None


def integer(x):
    if isinstance(x, Fraction):
        if x.denominator != 1:
            raise Unknown
        return x.numerator
    if isinstance(x, Mod):
        return x.v
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    raise Unknown


def divide(x, y, exact):
    if isinstance(x, Mod) or isinstance(y, Mod):
        p = x.p if isinstance(x, Mod) else y.p
        return Mod(x, p) * Mod(y.v if isinstance(y, Mod) else y, p).inv() if not isinstance(x, Mod) else x * Mod(y.v if isinstance(y, Mod) else y, p).inv()
    if y == 0:
        raise ZeroDivisionError
    if exact:
        q = Fraction(x) / Fraction(y)
        return q.numerator if q.denominator == 1 else q
    return (x // y) if y > 0 or x % y == 0 else -(x // -y)


class Eval:
    """env: term -> value; extra(t, self): value of a term that is not in env, or None"""

    def __init__(self, env, extra=None):
        self.env, self.extra, self.memo = env, extra, {}

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            r = self.memo[t]
            if r is None:
                raise Unknown
            return r
        self.memo[t] = None
        r = self.comp(t)
        if r is None:
            raise Unknown
        self.memo[t] = r
        return r

    def comp(self, t):
        op = t.op
        if op in ("z", "i"):
            return t.a[0]
        if self.extra:
            r = self.extra(t, self)
            if r is not None:
                return r
        if op == "P":
            r = 0
            for mono, c in t.a[0]:
                x = c
                for at, e in mono:
                    x = self(at) ** e * x
                r = r + x
            return r
        if op in ("add", "sub", "mul"):
            a, b = self(t.a[0]), self(t.a[1])
            return a + b if op == "add" else a - b if op == "sub" else a * b
        if op == "neg":
            return -self(t.a[0])
        if op == "vec" and t.a[0] == 3 and len(t.a) == 3:
            x, p = self(t.a[2]), integer(self(t.a[1]))
            return Mod(x.v if isinstance(x, Mod) and x.p == p else x, p)
        if op == "mod":
            x, p = self(t.a[0]), self(t.a[1])
            if isinstance(x, Mod) and not isinstance(p, Mod):
                if x.p == p:
                    return x.v
                raise Unknown
            if isinstance(x, Fraction):
                return Mod(x, p).v
            return integer(x) % integer(p)
        if op in ("zext", "sext", "trunc", "itos", "lift") and isinstance(t.a[-1], T):
            return integer(self(t.a[0]))
        if op == "cmp":
            p, a, b = t.a[0], self(t.a[1]), self(t.a[2])
            if isinstance(a, Mod) or isinstance(b, Mod):
                q = a.p if isinstance(a, Mod) else b.p
                a, b = Mod(a.v if isinstance(a, Mod) else a, q).v, Mod(b.v if isinstance(b, Mod) else b, q).v
            return {"eq": a == b, "ne": a != b}[p] if p in ("eq", "ne") else {"slt": a < b, "ult": a < b, "sle": a <= b, "ule": a <= b, "sgt": a > b, "ugt": a > b,
                    "sge": a >= b, "uge": a >= b}[p]
        if op == "zeq":
            x = self(t.a[0])
            return (x.v if isinstance(x, Mod) else x) == 0
        if op == "sgn":
            x = integer(self(t.a[0]))
            return (x > 0) - (x < 0)
        if op == "not":
            x = self(t.a[0])
            return not x
        if op == "bool":
            if t.a[0] == "isprime":
                return is_prime(integer(self(t.a[1])))
            raise Unknown
        if op == "inv":
            return Mod(self(t.a[0]), integer(self(t.a[1]))).inv().v
        if op == "call":
            return self.call(t.a[0], [x for x in t.a[1:] if isinstance(x, T)])
        raise Unknown

    def call(self, f, a):
        if f == "kronecker" or f in ("kroiu", "krosi", "kross", "krouu", "krois", "kroui"):
            return jacobi(integer(self(a[0])), integer(self(a[1])))
        if f in ("exdiv", "gdiv"):
            return divide(self(a[0]), self(a[1]), True)
        if f == "floordiv":
            return divide(integer(self(a[0])), integer(self(a[1])), False)
        if f == "fdiv":             # towards zero
            x, y = integer(self(a[0])), integer(self(a[1]))
            q = divide(abs(x), abs(y), False)
            return q if (x < 0) == (y < 0) else -q
        if f == "mul":
            return self(a[0]) * self(a[1])
        if f in ("stoi", "utoi", "itos", "itou", "lift", "centerlift", "gcopy"):
            return integer(self(a[0]))
        if f in ("int2n", "int2u"):
            return 1 << integer(self(a[0]))
        if f in ("mod4", "mod2", "mod8", "mod16"):
            return integer(self(a[0])) % int(f[3:])
        if f in ("Fp_inv", "inv"):
            return Mod(self(a[0]), integer(self(a[1]))).inv().v
        if f in ("Fp_sqr",):
            p = integer(self(a[1]))
            return integer(self(a[0])) ** 2 % p
        if f in ("Fp_pow", "Fp_powu", "Fp_pows"):
            return pow(integer(self(a[0])), integer(self(a[1])), integer(self(a[2])))
        if f in ("gpow", "gpowgs", "powiu", "powis"):
            x, n = self(a[0]), integer(self(a[1]))
            return x ** n if n >= 0 else divide(1, x ** -n, True)
        if f in ("isprime", "ispseudoprime", "BPSW_psp", "uisprime"):
            return is_prime(integer(self(a[0])))
        if f in ("Fp_issquare", "Fq_issquare"):
            return jacobi(integer(self(a[0])), integer(self(a[1]))) >= 0
        raise Unknown
