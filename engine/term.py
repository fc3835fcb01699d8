"""Hash-consed value terms (value numbers) and their algebraic normal form.

A term names the *value* an expression has, independently of how it is written: integer-valued PARI
arithmetic is kept as a canonical polynomial over atomic terms, comparisons are kept as a canonical
sign/zero test of a difference."""

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return pretty(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + tuple((x.id, 1) if isinstance(x, T) else (x, 0, type(x).__name__) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


def I(v):
    return mk("i", int(v))


ZERO = I(0)
ONE = I(1)


def isint(t):
    return t.op == "i"


def wrap(v, w):
    if w is None or w >= 128:
        return v
    if w == 1:
        return v & 1
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return v


# ---------------------------------------------------------------- pointers
def split(p):
    if p.op == "p":
        return p.a[0], p.a[1]
    return p, 0


def ptradd(p, off):
    if off == 0:
        return p
    if p.op == "px":
        return mk("px", p.a[0], p.a[1] + off, p.a[2])
    if p.op == "i":
        return I(p.a[0] + off)
    b, o = split(p)
    if o + off == 0:
        return b
    return mk("p", b, o + off)


def ptridx(p, idx, off):
    """idx: list of (term, scale)"""
    rest = []
    for t, sc in idx:
        c = 0
        if t.op == "i":
            off += t.a[0] * sc
            continue
        if t.op == "add" and t.a[1].op == "i":
            off += t.a[1].a[0] * sc
            t = t.a[0]
        rest.append((t, sc))
    if not rest:
        return ptradd(p, off)
    if p.op == "px":
        off += p.a[1]
        rest = list(zip(p.a[2].a[0::2], p.a[2].a[1::2])) + rest
        b = p.a[0]
    else:
        b, o = split(p)
        off += o
    rest.sort(key=lambda x: (x[0].id, x[1]))
    flat = []
    for t, sc in rest:
        flat += [t, sc]
    return mk("px", b, off, mk("idx", *flat))


def base_of(p):
    while p.op in ("p", "px"):
        p = p.a[0]
    return p


# ---------------------------------------------------------------- polynomials (GEN ring values)
def z(n):
    return mk("z", int(n))


def _poly(t):
    """term -> dict monomial(tuple of (atom id sorted, exp)) -> int coefficient"""
    if t.op == "z":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "P":
        return dict(t.a[0])
    return {((t, 1),): 1}


class _PK(tuple):
    """hashable poly key"""


_ptab = {}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return z(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return z(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (tuple((a.id, e) for a, e in mc[0]), mc[1])))
    k = tuple((tuple((a.id, e) for a, e in m), c) for m, c in items)
    t = _ptab.get(k)
    if t is None:
        t = T()
        t.op = "P"
        t.a = (items,)
        t.id = len(_tab)
        _tab[("P", k)] = t
        _ptab[k] = t
    return t


def padd(a, b, s=1):
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + s * c
    return _mkpoly(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    A, B = _poly(a), _poly(b)
    if len(A) * len(B) > 4000:
        return mk("call", "mul", a, b)
    d = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            e = {}
            for at, k in m1 + m2:
                e[at] = e.get(at, 0) + k
            m = tuple(sorted(((at, k) for at, k in e.items() if k), key=lambda x: x[0].id))
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def ppow(a, n):
    r = z(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def pneg(a):
    return psub(z(0), a)


def pscale(a, n):
    return pmul(a, z(n))


def pcanon(d):
    """(canonical difference, sign): d = sign * canonical"""
    if d.op == "z":
        return d, 1
    if d.op == "P":
        c = d.a[0][-1][1]
        if c < 0:
            return pneg(d), -1
    return d, 1


def pconst(t):
    return t.a[0] if t.op == "z" else None


def pdiv_exact_const(t, n):
    d = _poly(t)
    if n and all(c % n == 0 for c in d.values()):
        return _mkpoly({m: c // n for m, c in d.items()})
    return None


def atoms(t, acc=None):
    """all subterms"""
    if acc is None:
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if x in acc:
            continue
        acc.add(x)
        if x.op == "P":
            for m, _ in x.a[0]:
                for at, _e in m:
                    st.append(at)
        else:
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    for w in y:
                        if isinstance(w, T):
                            st.append(w)
    return acc


def subst(t, f, memo=None):
    """rebuild t bottom-up through f (f(term) -> replacement or None)"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        if t.op == "P":
            r = z(0)
            for m, c in t.a[0]:
                x = z(c)
                for at, e in m:
                    x = pmul(x, ppow(subst(at, f, memo), e))
                r = padd(r, x)
        else:
            na = tuple(subst(x, f, memo) if isinstance(x, T) else x for x in t.a)
            r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
    memo[t] = r
    return r


NAMES = {}  # optional pretty names: callable(term)->str or None


def pretty(t, d=0):
    if d > 7:
        return "…"
    n = NAMES.get("f") and NAMES["f"](t)
    if n:
        return n
    p = lambda x: pretty(x, d + 1) if isinstance(x, T) else str(x)
    if t.op == "i":
        return str(t.a[0])
    if t.op == "z":
        return str(t.a[0])
    if t.op == "G":
        return "&" + t.a[0]
    if t.op == "F":
        return t.a[0]
    if t.op == "sym":
        return str(t.a[0])
    if t.op == "P":
        out = []
        for m, c in t.a[0]:
            s = "*".join(p(at) + ("^%d" % e if e > 1 else "") for at, e in m)
            out.append((("%d*" % c) if c != 1 else "") + s if s else str(c))
        return "(" + " + ".join(out) + ")"
    if t.op == "call":
        return t.a[0] + "(" + ", ".join(p(x) for x in t.a[1:]) + ")"
    if t.op == "p":
        return p(t.a[0]) + "+%d" % t.a[1]
    if t.op == "ld":
        return "*(" + p(t.a[0]) + ")"
    if t.op in ("A", "H"):
        return "%s@%s" % ({"A": "local", "H": "heap"}[t.op], uidstr(t.a[0]))
    return t.op + "(" + ", ".join(p(x) for x in t.a) + ")"


def uidstr(u):
    s = str(u)
    return s if len(s) < 24 else "#%x" % (abs(hash(s)) % 0xFFFFF)
