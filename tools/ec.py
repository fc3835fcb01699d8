"""helpers for demonstrations: run ecgen in a scratch directory and recompute what it prints"""
import json, os, subprocess, tempfile, shutil, sys

REPO = os.getcwd()


def run(*args, inp=None, timeout=120):
    d = tempfile.mkdtemp()
    try:
        p = subprocess.run([os.path.join(REPO, "ecgen"), *map(str, args)], cwd=d, input=inp if inp is not None else "", capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(d)
    return p


def curves(*args, **kw):
    return json.loads(run(*args, **kw).stdout)


def h(x):
    return int(x, 16)


def isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Fp:
    """y^2 = x^3 + ax + b"""
    def __init__(s, c):
        s.p, s.a, s.b = h(c["field"]["p"]), h(c["a"]), h(c["b"])

    def on(s, P):
        return P is None or (P[1] ** 2 - P[0] ** 3 - s.a * P[0] - s.b) % s.p == 0

    def add(s, P, Q):
        if P is None: return Q
        if Q is None: return P
        p = s.p
        if P[0] == Q[0] and (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] ** 2 + s.a) * pow(2 * P[1], -1, p) if P == Q else (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def count(s):
        return s.p + 1 + sum(1 if t and pow(t, (s.p - 1) // 2, s.p) == 1 else -1 if t else 0
                             for t in ((x ** 3 + s.a * x + s.b) % s.p for x in range(s.p)))


class F2m:
    """y^2 + xy = x^3 + ax^2 + b"""
    def __init__(s, c):
        f = c["field"]
        s.m = h(f["m"])
        s.poly = 1 << s.m | 1
        for e in ("e1", "e2", "e3"):
            if h(f[e]): s.poly |= 1 << h(f[e])
        s.a, s.b = h(c["a"]), h(c["b"])

    def mul(s, x, y):
        r = 0
        while y:
            if y & 1: r ^= x
            y >>= 1
            x <<= 1
            if x >> s.m: x ^= s.poly
        return r

    def inv(s, x):
        r, e = 1, (1 << s.m) - 2
        while e:
            if e & 1: r = s.mul(r, x)
            x = s.mul(x, x)
            e >>= 1
        return r

    def on(s, P):
        if P is None: return True
        x, y = P
        x2 = s.mul(x, x)
        return s.mul(y, y) ^ s.mul(x, y) ^ s.mul(x2, x) ^ s.mul(s.a, x2) ^ s.b == 0

    def add(s, P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[0] ^ P[1] == Q[1] : return None
            if P[0] == 0: return None
            l = P[0] ^ s.mul(P[1], s.inv(P[0]))
            x = s.mul(l, l) ^ l ^ s.a
            return x, s.mul(P[0], P[0]) ^ s.mul(l ^ 1, x)
        l = s.mul(P[1] ^ Q[1], s.inv(P[0] ^ Q[0]))
        x = s.mul(l, l) ^ l ^ P[0] ^ Q[0] ^ s.a
        return x, s.mul(l, P[0] ^ x) ^ x ^ P[1]


def curve(c):
    return Fp(c) if "p" in c["field"] else F2m(c)


def mul(E, k, P):
    R = None
    while k:
        if k & 1: R = E.add(R, P)
        P = E.add(P, P)
        k >>= 1
    return R


def factors(n):
    r, d = [], 2
    while d * d <= n:
        while n % d == 0:
            r.append(d); n //= d
        d += 1
    return r + ([n] if n > 1 else [])


def order_is(E, P, n):
    """n is the exact order of P"""
    return E.on(P) and mul(E, n, P) is None and all(mul(E, n // q, P) is not None for q in set(factors(n)))


def fail(msg):
    print("FAIL", msg)
    sys.exit(1)
