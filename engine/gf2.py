"""Irreducibility over GF(2) of sparse polynomials given by their exponents (Rabin's test on Python integers)."""
import hashlib, os


def red(x, m, low):
    """x mod t^m + sum t^e, e in low"""
    mask = (1 << m) - 1
    while x >> m:
        h = x >> m
        x &= mask
        for e in low:
            x ^= h << e
    return x


def sqr(x):
    return int(bin(x)[2:], 4)


def gcd(a, b):
    while b:
        db = b.bit_length()
        while a.bit_length() >= db:
            a ^= b << (a.bit_length() - db)
        a, b = b, a
    return a


def primes_of(n):
    r, p = [], 2
    while p * p <= n:
        if n % p == 0:
            r.append(p)
            while n % p == 0:
                n //= p
        p += 1
    return r + ([n] if n > 1 else [])


def irreducible(exps):
    exps = sorted(set(exps))
    m = exps[-1]
    if m < 1 or exps[0] != 0:
        return m == 1
    if len(exps) % 2 == 0:
        return m == 1
    low = exps[:-1]
    f = sum(1 << e for e in exps)
    stops = {m // q for q in primes_of(m)}
    x = 2 if m > 1 else red(2, m, low)
    x0 = x
    for k in range(1, m + 1):
        x = red(sqr(x), m, low)
        if k in stops and gcd(f, x ^ x0) != 1:
            return False
    return x == x0


def key(exps):
    return " ".join(map(str, sorted(set(exps), reverse=True)))


CERT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "irreducible.txt")


def certified():
    """polynomials that were tested before (tools/certify.py recomputes the list)"""
    try:
        with open(CERT) as f:
            return set(l.strip() for l in f)
    except OSError:
        return set()
