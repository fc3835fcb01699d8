"""Exact models of the string functions of libc on constant strings, for the analysis of code whose input is one of a known set of words."""
import re
from absint import *

TOK = mk("G", "#strtok")


def put(st, text, name):
    """a string constant in memory of its own"""
    b = mk("H", ("str", name))
    for k, ch in enumerate(text.encode()):
        st.mem[(b, k)] = I(ch if ch < 128 else ch - 256)
    st.mem[(b, len(text.encode()))] = ZERO
    return b


def get(ip, st, p, limit=4096):
    """the string at p, or None if it is not known"""
    if p.op in ("i", "undef", "px", "?"):
        return None
    out = bytearray()
    for k in range(limit):
        v = ip.load(st, ptradd(p, k), 1)
        if v.op != "i":
            return None
        if v.a[0] == 0:
            return out.decode("latin1")
        out.append(v.a[0] & 255)
    return None


def ret(v, st):
    return [Outcome("ret", v, st)]


def sign(x):
    return I((x > 0) - (x < 0))


def num(s, base, unsigned):
    """(value, length of the prefix used) as strtol does"""
    m = re.match(r"[ \t\n\v\f\r]*([+-]?)", s)
    k, neg = m.end(), m.group(1) == "-"
    if base in (0, 16) and re.match(r"0[xX][0-9a-fA-F]", s[k:]):
        k += 2
        base = 16
    elif base == 0:
        base = 8 if s[k:k + 1] == "0" else 10
    v, n = 0, 0
    for ch in s[k:]:
        try:
            d = int(ch, 36)
        except ValueError:
            break
        if d >= base:
            break
        v = v * base + d
        n += 1
    if not n:
        return 0, 0
    v = -v if neg else v
    if unsigned:
        v = v % (1 << 64) if abs(v) < 1 << 64 else (1 << 64) - 1
        v = v - (1 << 64) if v >> 63 else v
    else:
        v = max(-(1 << 63), min(v, (1 << 63) - 1))
    return v, k + n


def install(ip, regexes=None):
    """regexes: base of a regex_t -> (pattern, extended) filled by regcomp"""
    H = ip.hooks
    regexes = regexes if regexes is not None else {}

    def two(f):
        def h(ip, v, st, uid, i):
            a, b = get(ip, st, v[0]), get(ip, st, v[1])
            if a is None or b is None:
                return None
            r = f(ip, st, v, a, b)
            return None if r is None else ret(r, st)
        return h

    def n_(v):
        return v.a[0] if v.op == "i" else None

    H["strcmp"] = two(lambda ip, st, v, a, b: sign((a > b) - (a < b)))
    H["strcoll"] = H["strcmp"]
    H["strcasecmp"] = two(lambda ip, st, v, a, b: sign((a.lower() > b.lower()) - (a.lower() < b.lower())))

    def ncmp(fold):
        def f(ip, st, v, a, b):
            n = n_(v[2])
            if n is None:
                return None
            a, b = a[:n], b[:n]
            if fold:
                a, b = a.lower(), b.lower()
            return sign((a > b) - (a < b))
        return two(f)
    H["strncmp"], H["strncasecmp"] = ncmp(False), ncmp(True)

    def memcmp_(ip, v, st, uid, i):
        n = n_(v[2])
        if n is None or n > 4096:
            return None
        for k in range(n):
            a, b = ip.load(st, ptradd(v[0], k), 1), ip.load(st, ptradd(v[1], k), 1)
            if a.op != "i" or b.op != "i":
                return None
            if (a.a[0] & 255) != (b.a[0] & 255):
                return ret(sign((a.a[0] & 255) - (b.a[0] & 255)), st)
        return ret(ZERO, st)
    H["memcmp"] = H["bcmp"] = memcmp_

    def strlen_(ip, v, st, uid, i):
        s = get(ip, st, v[0])
        return None if s is None else ret(I(len(s)), st)
    H["strlen"] = strlen_

    H["strspn"] = two(lambda ip, st, v, a, b: I(next((k for k, ch in enumerate(a) if ch not in b), len(a))))
    H["strcspn"] = two(lambda ip, st, v, a, b: I(next((k for k, ch in enumerate(a) if ch in b), len(a))))
    H["strstr"] = two(lambda ip, st, v, a, b: ptradd(v[0], a.find(b)) if b in a else ZERO)
    H["strcasestr"] = two(lambda ip, st, v, a, b: ptradd(v[0], a.lower().find(b.lower())) if b.lower() in a.lower() else ZERO)
    H["strpbrk"] = two(lambda ip, st, v, a, b: next((ptradd(v[0], k) for k, ch in enumerate(a) if ch in b), ZERO))

    def chr_(rev):
        def h(ip, v, st, uid, i):
            s, ch = get(ip, st, v[0]), n_(v[1])
            if s is None or ch is None:
                return None
            ch = chr(ch & 255)
            k = len(s) if ch == "\0" else (s.rfind(ch) if rev else s.find(ch))
            return ret(ptradd(v[0], k) if k >= 0 else ZERO, st)
        return h
    H["strchr"] = H["index"] = chr_(False)
    H["strrchr"] = H["rindex"] = chr_(True)

    def tok(ip, st, p, delims, save):
        if p.op == "i" and p.a[0] == 0:
            p = ip.load(st, save)
            if p is ZERO:
                return ZERO
        s, d = get(ip, st, p), get(ip, st, delims)
        if s is None or d is None:
            return None
        k = 0
        while k < len(s) and s[k] in d:
            k += 1
        if k == len(s):
            ip.store(st, save, ZERO)
            return ZERO
        e = k
        while e < len(s) and s[e] not in d:
            e += 1
        if e < len(s):
            st.mem[split(ptradd(p, e))] = ZERO
            ip.store(st, save, ptradd(p, e + 1))
        else:
            ip.store(st, save, ZERO)
        return ptradd(p, k)

    def strtok_(ip, v, st, uid, i):
        r = tok(ip, st, v[0], v[1], TOK)
        return None if r is None else ret(r, st)

    def strtok_r_(ip, v, st, uid, i):
        r = tok(ip, st, v[0], v[1], v[2])
        return None if r is None else ret(r, st)
    H["strtok"], H["strtok_r"] = strtok_, strtok_r_

    def strsep_(ip, v, st, uid, i):
        p = ip.load(st, v[0])
        if p is ZERO:
            return ret(ZERO, st)
        s, d = get(ip, st, p), get(ip, st, v[1])
        if s is None or d is None:
            return None
        e = next((k for k, ch in enumerate(s) if ch in d), None)
        if e is None:
            ip.store(st, v[0], ZERO)
        else:
            st.mem[split(ptradd(p, e))] = ZERO
            ip.store(st, v[0], ptradd(p, e + 1))
        return ret(p, st)
    H["strsep"] = strsep_

    def strto(unsigned):
        def h(ip, v, st, uid, i):
            s, b = get(ip, st, v[0]), n_(v[2])
            if s is None or b is None:
                return None
            r, k = num(s, b, unsigned)
            if v[1] is not ZERO:
                ip.store(st, v[1], ptradd(v[0], k))
            return ret(I(r), st)
        return h
    for f in ("strtol", "strtoll", "strtoimax", "__isoc23_strtol", "__isoc23_strtoll"):
        H[f] = strto(False)
    for f in ("strtoul", "strtoull", "strtoumax", "__isoc23_strtoul", "__isoc23_strtoull"):
        H[f] = strto(True)

    def ato(ip, v, st, uid, i):
        s = get(ip, st, v[0])
        return None if s is None else ret(I(num(s, 10, False)[0]), st)
    H["atoi"] = H["atol"] = H["atoll"] = ato

    # <ctype.h>: tables of flags (glibc, C locale), indexed by the character
    def table(name, size, val):
        base = mk("H", ("ctype", name))
        holder = mk("H", ("ctypep", name))

        def h(ip, v, st, uid, i):
            if (holder, 0) not in st.mem:
                st.mem[(holder, 0)] = base
                for ch in range(-128, 256):
                    st.mem[(base, ch * size)] = I(val(ch & 255 if ch < 0 else ch) if ch >= 0 else 0)
            return ret(holder, st)
        H[name] = h

    def flags(ch):
        s = chr(ch)
        f = 0
        if ch > 127:
            return 0
        if s.isupper(): f |= 1 << 8
        if s.islower(): f |= 1 << 9
        if s.isalpha(): f |= 1 << 10
        if s.isdigit(): f |= 1 << 11
        if s in "0123456789abcdefABCDEF": f |= 1 << 12
        if s in " \t\n\v\f\r": f |= 1 << 13
        if 32 <= ch < 127: f |= 1 << 14
        if 33 <= ch < 127: f |= 1 << 15
        if s in " \t": f |= 1
        if ch < 32 or ch == 127: f |= 2
        if 33 <= ch < 127 and not s.isalnum(): f |= 4
        if s.isalnum(): f |= 8
        return f - 65536 if f & 0x8000 else f
    table("__ctype_b_loc", 2, flags)
    table("__ctype_tolower_loc", 4, lambda ch: ord(chr(ch).lower()) if ch < 128 else ch)
    table("__ctype_toupper_loc", 4, lambda ch: ord(chr(ch).upper()) if ch < 128 else ch)

    def conv(f):
        def h(ip, v, st, uid, i):
            ch = n_(v[0])
            return None if ch is None else ret(I(f(ch)), st)
        return h
    H["tolower"] = conv(lambda ch: ord(chr(ch).lower()) if 0 <= ch < 128 else ch)
    H["toupper"] = conv(lambda ch: ord(chr(ch).upper()) if 0 <= ch < 128 else ch)
    for nm, bit in (("isxdigit", 12), ("isdigit", 11), ("isalpha", 10), ("isspace", 13), ("isalnum", 3)):
        H[nm] = conv(lambda ch, bit=bit: (flags(ch) >> bit) & 1 if 0 <= ch < 128 else 0)

    def regcomp_(ip, v, st, uid, i):
        pat, fl = get(ip, st, v[1]), n_(v[2])
        if pat is not None and fl is not None:
            regexes[v[0]] = (pat, fl)
        return ret(ZERO, st)

    def regexec_(ip, v, st, uid, i):
        s, r = get(ip, st, v[1]), regexes.get(v[0])
        if s is None or r is None or not r[1] & 1 or "[[:" in r[0] or "\\" in r[0]:
            return None
        try:
            hit = re.search(r[0].replace("$", r"\Z"), s, re.I if r[1] & 2 else 0)
        except re.error:
            return None
        return ret(ZERO if hit else I(1), st)
    H["regcomp"], H["regexec"] = regcomp_, regexec_
    return regexes
