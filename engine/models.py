"""Models of the external functions ecgen calls (PARI, libc, pthread, json): what value they return, as a term.
PARI arithmetic is exact ring arithmetic on polynomials over atoms; every other PARI function is a pure function of
its arguments (an uninterpreted term), except the ones listed as impure."""
from term import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def RET(v, st):
    from absint import Outcome
    return [Outcome("ret", v, st)]


def stoi(t):
    if t.op == "i":
        return z(t.a[0])
    if t.op == "add" and t.a[1].op == "i":
        return padd(stoi(t.a[0]), z(t.a[1].a[0]))
    if t.op == "add":
        return padd(stoi(t.a[0]), stoi(t.a[1]))
    if t.op == "sub":
        return psub(stoi(t.a[0]), stoi(t.a[1]))
    if t.op == "neg":
        return pneg(stoi(t.a[0]))
    if t.op == "mul" and t.a[1].op == "i":
        return pscale(stoi(t.a[0]), t.a[1].a[0])
    if t.op == "itos":
        return t.a[0]
    return mk("stoi", t)


def itos(x):
    if x.op == "z":
        return I(x.a[0])
    if x.op == "stoi":
        return x.a[0]
    if x.op == "P" and all(len(m) <= 1 and (not m or (m[0][0].op == "stoi" and m[0][1] == 1)) for m, c in x.a[0]):
        pass
    return mk("itos", x)


def G(ip, st, v):
    """a GEN argument as a structural value"""
    v = ip.reify(st, v)
    return v


def bi(f, ca="g", cb="g"):
    def m(ip, v, st, uid, i):
        a = G(ip, st, v[0]) if ca == "g" else stoi(v[0])
        b = G(ip, st, v[1]) if cb == "g" else stoi(v[1])
        return f(a, b)
    return m


for n in ("addii", "gadd", "addir", "addri", "addrr", "RgX_add", "ZX_add"):
    MODELS[n] = bi(padd)
for n in ("addis", "addiu", "gaddgs"):
    MODELS[n] = bi(padd, "g", "s")
for n in ("addsi", "addui", "gaddsg"):
    MODELS[n] = bi(padd, "s", "g")
for n in ("subii", "gsub", "subrr", "subir", "subri"):
    MODELS[n] = bi(psub)
for n in ("subis", "subiu", "gsubgs"):
    MODELS[n] = bi(psub, "g", "s")
for n in ("subsi", "subui", "gsubsg"):
    MODELS[n] = bi(psub, "s", "g")
for n in ("mulii", "gmul", "mulrr", "mulir", "mulri"):
    MODELS[n] = bi(pmul)
for n in ("mulis", "muliu", "gmulgs", "gmulgu", "mulrs"):
    MODELS[n] = bi(pmul, "g", "s")
for n in ("mulsi", "mului", "gmulsg", "gmulug"):
    MODELS[n] = bi(pmul, "s", "g")
for n in ("muluu", "mulss"):
    MODELS[n] = bi(pmul, "s", "s")
for n in ("addss", "adduu"):
    MODELS[n] = bi(padd, "s", "s")


@model("sqri", "gsqr", "sqrr")
def _(ip, v, st, uid, i):
    a = G(ip, st, v[0])
    return pmul(a, a)


@model("negi", "gneg", "negr")
def _(ip, v, st, uid, i):
    return pneg(G(ip, st, v[0]))


@model("powis", "powiu", "gpowgs", "gpowgu")
def _(ip, v, st, uid, i):
    a = G(ip, st, v[0])
    if v[1].op == "i" and 0 <= v[1].a[0] <= 12:
        return ppow(a, v[1].a[0])
    if a.op == "z" and a.a[0] == 2:
        return models_int2n(ip, v[1:], st, uid, i)
    return mk("call", "pow", a, stoi(v[1]))


@model("powii", "gpow", "powgi")
def _(ip, v, st, uid, i):
    a, b = G(ip, st, v[0]), G(ip, st, v[1])
    if b.op == "z" and 0 <= b.a[0] <= 12:
        return ppow(a, b.a[0])
    return mk("call", "pow", a, b)


@model("int2n", "int2u")
def models_int2n(ip, v, st, uid, i):
    if v[0].op == "i" and 0 <= v[0].a[0] < 5000:
        return z(1 << v[0].a[0])
    t = v[0]
    if t.op == "add" and t.a[1].op == "i":
        c = t.a[1].a[0]
        if c > 0:
            return pscale(mk("call", "int2n", t.a[0]), 1 << c)
    return mk("call", "int2n", t)


@model("shifti", "gmul2n", "gshift")
def _(ip, v, st, uid, i):
    a = G(ip, st, v[0])
    if v[1].op == "i":
        n = v[1].a[0]
        if 0 <= n < 4096:
            return pscale(a, 1 << n)
        if a.op == "z" and n < 0:
            return z(a.a[0] >> -n if a.a[0] >= 0 else -((-a.a[0]) >> -n))
    if a.op == "z" and a.a[0] == 1:
        return mk("call", "int2n", v[1])
    return mk("call", "shifti", a, v[1])


@model("stoi", "utoi", "utoipos", "stor", "utoineg")
def _(ip, v, st, uid, i):
    return stoi(v[0]) if i.d["callee"][1] != "utoineg" else pneg(stoi(v[0]))


@model("itos", "itou", "gtos", "gtou", "itos_or_0", "itou_or_0")
def _(ip, v, st, uid, i):
    return itos(G(ip, st, v[0]))


# ------------------------------------------------------------- predicates
def zeq(d):
    c, s = pcanon(d)
    if c.op == "z":
        return I(c.a[0] == 0)
    return mk("zeq", c)


def sgn(ip, d):
    c, s = pcanon(d)
    if c.op == "z":
        return I((c.a[0] > 0) - (c.a[0] < 0))
    t = mk("sgn", c)
    return t if s == 1 else mk("neg", t)


@model("equalii", "gequal", "equalrr", "gidentical", "ZX_equal", "RgX_equal", "FF_equal", "gequal_try")
def _(ip, v, st, uid, i):
    return zeq(psub(G(ip, st, v[0]), G(ip, st, v[1])))


@model("equalis", "equaliu", "gequalsg", "gequalgs", "equalui", "equalsi")
def _(ip, v, st, uid, i):
    n = i.d["callee"][1]
    a, b = (v[1], v[0]) if n in ("gequalsg", "equalui", "equalsi") else (v[0], v[1])
    return zeq(psub(G(ip, st, a), stoi(b)))


@model("gequal0", "isintzero", "isexactzero", "ell_is_inf0", "FF_equal0")
def _(ip, v, st, uid, i):
    return zeq(G(ip, st, v[0]))


@model("gequal1", "isint1", "equali1", "is_pm1_", "FF_equal1")
def _(ip, v, st, uid, i):
    return zeq(psub(G(ip, st, v[0]), z(1)))


@model("gequalm1", "isintm1", "equalim1", "FF_equalm1")
def _(ip, v, st, uid, i):
    return zeq(padd(G(ip, st, v[0]), z(1)))


@model("cmpii", "gcmp", "cmprr", "cmpir", "cmpri")
def _(ip, v, st, uid, i):
    return sgn(ip, psub(G(ip, st, v[0]), G(ip, st, v[1])))


@model("cmpis", "cmpiu", "gcmpgs", "cmprs")
def _(ip, v, st, uid, i):
    return sgn(ip, psub(G(ip, st, v[0]), stoi(v[1])))


@model("cmpsi", "cmpui", "gcmpsg", "cmpsr")
def _(ip, v, st, uid, i):
    return sgn(ip, psub(stoi(v[0]), G(ip, st, v[1])))


@model("signe", "gsigne")
def _(ip, v, st, uid, i):
    return sgn(ip, G(ip, st, v[0]))


@model("isprime", "gisprime")
def _(ip, v, st, uid, i):
    return mk("bool", "isprime", G(ip, st, v[0]))


@model("ispseudoprime", "BPSW_psp", "gispseudoprime")
def _(ip, v, st, uid, i):
    return mk("bool", "ispseudoprime", G(ip, st, v[0]))


@model("mpodd")
def _(ip, v, st, uid, i):
    x = G(ip, st, v[0])
    if x.op == "z":
        return I(x.a[0] & 1)
    return mk("bool", "mpodd", x)


@model("dvdii")
def _(ip, v, st, uid, i):
    return mk("bool", "dvdii", G(ip, st, v[0]), G(ip, st, v[1]))


@model("dvdiu", "dvdis")
def _(ip, v, st, uid, i):
    return mk("bool", "dvdii", G(ip, st, v[0]), stoi(v[1]))


@model("ell_is_inf")
def _(ip, v, st, uid, i):
    return mk("bool", "ell_is_inf", G(ip, st, v[0]))


# ------------------------------------------------------------- modular
def mod(p, m):
    if m.op == "z" and p.op == "z" and m.a[0]:
        return z(p.a[0] % m.a[0])

    def f(t):
        if t.op == "mod" and t.a[1] is m:
            return t.a[0]
        return None
    if p.op == "mod" and p.a[1] is m:
        return p
    if p.op == "P":
        r = z(0)
        for mono, c in p.a[0]:
            x = z(c)
            for at, e in mono:
                x = pmul(x, ppow(at.a[0] if at.op == "mod" and at.a[1] is m else at, e))
            r = padd(r, x)
        p = r
    return mk("mod", p, m)


@model("Fp_add", "Fp_addmul_")
def _(ip, v, st, uid, i):
    a, b, m = (G(ip, st, x) for x in v)
    return mod(padd(a, b), m)


@model("Fp_sub")
def _(ip, v, st, uid, i):
    a, b, m = (G(ip, st, x) for x in v)
    return mod(psub(a, b), m)


@model("Fp_mul")
def _(ip, v, st, uid, i):
    a, b, m = (G(ip, st, x) for x in v)
    return mod(pmul(a, b), m)


@model("Fp_muls", "Fp_mulu")
def _(ip, v, st, uid, i):
    return mod(pmul(G(ip, st, v[0]), stoi(v[1])), G(ip, st, v[2]))


@model("Fp_sqr")
def _(ip, v, st, uid, i):
    a, m = G(ip, st, v[0]), G(ip, st, v[1])
    return mod(pmul(a, a), m)


@model("Fp_neg")
def _(ip, v, st, uid, i):
    return mod(pneg(G(ip, st, v[0])), G(ip, st, v[1]))


def inv(a, m):
    if a.op == "mod" and a.a[1] is m:
        a = a.a[0]
    return mk("inv", a, m)


@model("Fp_inv", "Fp_invsafe")
def _(ip, v, st, uid, i):
    a, m = G(ip, st, v[0]), G(ip, st, v[1])
    return mod(inv(a, m), m)


@model("Fp_div")
def _(ip, v, st, uid, i):
    a, b, m = (G(ip, st, x) for x in v)
    return mod(pmul(a, inv(b, m)), m)


@model("Fp_red", "modii", "gmod", "Fp_center_")
def _(ip, v, st, uid, i):
    return mod(G(ip, st, v[0]), G(ip, st, v[1]))


@model("modis", "modiu", "gmodgs")
def _(ip, v, st, uid, i):
    return mod(G(ip, st, v[0]), stoi(v[1]))


@model("umodiu", "umodui", "smodis", "mod2", "mod4", "mod8", "mod16", "mod32", "mod64")
def _(ip, v, st, uid, i):
    n = i.d["callee"][1].split(".")[0]
    if n.startswith("mod"):
        m = z(int(n[3:]))
    else:
        m = stoi(v[1])
    return itos(mod(G(ip, st, v[0]), m))


@model("mkintmod", "gmodulo", "Fp_to_mod")
def _(ip, v, st, uid, i):
    x, m = G(ip, st, v[0]), G(ip, st, v[1])
    if x.op == "mod" and x.a[1] is m:
        x = x.a[0]
    return mk("vec", 3, m, x)


@model("gmodulss", "gmodulsg")
def _(ip, v, st, uid, i):
    return mk("vec", 3, G(ip, st, v[1]) if i.d["callee"][1] == "gmodulsg" else stoi(v[1]), stoi(v[0]))


def _mkv(typ):
    def m(ip, v, st, uid, i):
        return mk("vec", typ, *[G(ip, st, x) for x in v])
    return m


for n in ("mkvec", "mkvec2", "mkvec3", "mkvec4", "mkvec5"):
    MODELS[n] = _mkv(17)
for n in ("mkcol", "mkcol2", "mkcol3"):
    MODELS[n] = _mkv(18)
MODELS["mkcomplex"] = _mkv(6)
MODELS["mkfrac"] = _mkv(4)
MODELS["ellinf"] = lambda ip, v, st, uid, i: mk("vec", 17, z(0))
MODELS["gen_I"] = lambda ip, v, st, uid, i: mk("vec", 6, z(0), z(1))


@model("cgetg", "cgetg_copy_", "vectrunc_init_", "new_chunk_")
def _(ip, v, st, uid, i):
    n, t = v[0], v[1]
    h = mk("H", uid, "cgetg", n.a[0] if n.op == "i" else n, t.a[0] if t.op == "i" else -1)
    ip.store(st, h, mk("hdr", h))
    return h


@model("gtovec0", "gtocol0")
def _(ip, v, st, uid, i):
    x, n = v
    if x.op != "z" or n.op == "i" and not 0 < n.a[0] < 2048:
        return None
    h = mk("H", uid, "cgetg", n.a[0] + 1 if n.op == "i" else ip.add(n, ONE), 17)
    ip.store(st, h, mk("hdr", h))
    if n.op == "i":
        for k in range(n.a[0]):
            ip.store(st, ptradd(h, 8 * (k + 1)), G(ip, st, x) if k == 0 else z(0))
    return h


@model("zerovec", "zerocol", "const_vec_", "zerovec_block")
def _(ip, v, st, uid, i):
    n = v[0]
    h = mk("H", uid, "cgetg", n.a[0] + 1 if n.op == "i" else ip.add(n, ONE), 17)
    ip.store(st, h, mk("hdr", h))
    if n.op == "i" and n.a[0] < 2048:
        for k in range(n.a[0]):
            ip.store(st, ptradd(h, 8 * (k + 1)), z(0))
    return h


# ------------------------------------------------------------- identity-like
@model("gcopy", "gclone", "icopy", "rcopy", "gerepilecopy_", "leafcopy", "absi_", "gcopy_lg", "shallowcopy", "simplify", "simplify_shallow")
def _(ip, v, st, uid, i):
    return v[0]


@model("gerepilecopy", "gerepileupto", "gerepileuptoint", "gerepileuptoleaf")
def _(ip, v, st, uid, i):
    return v[1]


@model("gerepile")
def _(ip, v, st, uid, i):
    return v[2]


@model("gerepileall", "gerepileallsp", "gerepilecoeffs")
def _(ip, v, st, uid, i):
    return mk("undef")


@model("gunclone", "set_avma", "cgiv", "killblock", "pari_free", "free", "obj_free", "gunclone_deep", "guncloneNULL")
def _(ip, v, st, uid, i):
    return mk("undef")


@model("lift", "lift_shallow")
def _(ip, v, st, uid, i):
    a = G(ip, st, v[0])
    if a.op == "vec" and a.a[0] == 3:
        return mod(a.a[2], a.a[1])
    return mk("call", "lift", a)


@model("ell_get_j")
def _(ip, v, st, uid, i):
    return mk("call", "ell_j", G(ip, st, v[0]))


@model("ell_get_disc")
def _(ip, v, st, uid, i):
    return mk("call", "ell_disc", G(ip, st, v[0]))


for _n in ("a1", "a2", "a3", "a4", "a6"):
    MODELS["ell_get_" + _n] = (lambda nm: lambda ip, v, st, uid, i: ellcoef(G(ip, st, v[0]), nm))(_n)


def ellcoef(e, nm):
    return mk("call", "ell_" + nm, e)


@model("ellff_get_card", "ellcard")
def _(ip, v, st, uid, i):
    return mk("call", "ellcard", G(ip, st, v[0]))


@model("ellsea")
def _(ip, v, st, uid, i):
    return mk("call", "ellsea", G(ip, st, v[0]), v[1])


@model("lg")
def _(ip, v, st, uid, i):
    return mk("lg", v[0])


@model("glength")
def _(ip, v, st, uid, i):
    x = G(ip, st, v[0])
    if x.op == "vec":
        return I(len(x.a) - 1)
    if x.op == "call" and x.a[0] in ("member_mod", "FF_mod", "FF_to_FpXQ"):
        return ip.add(mk("lg", v[0]), I(-2))    # a polynomial has two code words
    return ip.add(mk("lg", v[0]), I(-1))


# exact integer divisions
@model("diviiexact", "divii", "truedivii", "gdivexact", "gdivent", "gdiventgs_", "gdiv", "truedvmdii_")
def _(ip, v, st, uid, i):
    a, b = G(ip, st, v[0]), G(ip, st, v[1])
    if b.op == "z" and b.a[0]:
        r = pdiv_exact_const(a, b.a[0])
        if r is not None:
            return r
    if a.op == "P" and len(a.a[0]) == 1 or a is b:
        pass
    if a is b:
        return z(1)
    n = i.d["callee"][1].split(".")[0]
    k = "exdiv" if n in ("diviiexact", "gdivexact", "gdiv") else "fdiv" if n == "divii" else "floordiv"
    return mk("call", k, a, b)


@model("divis", "diviuexact", "gdivgs", "divsi_", "divisexact_", "gdivgu")
def _(ip, v, st, uid, i):
    a, b = G(ip, st, v[0]), stoi(v[1])
    if b.op == "z" and b.a[0]:
        r = pdiv_exact_const(a, b.a[0])
        if r is not None:
            return r
    n = i.d["callee"][1].split(".")[0]
    return mk("call", "exdiv" if n in ("diviuexact", "gdivgs", "gdivgu") else "fdiv", a, b)


# ------------------------------------------------------------- impure PARI
IMPURE = ("genrand", "random_bits", "randomi", "random_Fl", "randomprime", "ellrandom", "ffrandom", "random_F2x",
          "forprime_next", "pari_err_last", "timer_get", "getrand", "genindexselect", "gp_read_str", "random_bits")


def _impure(n):
    def m(ip, v, st, uid, i):
        return mk("call", n, *[G(ip, st, x) for x in v if x.op not in ("A",)], uid)
    return m


for n in IMPURE:
    MODELS[n] = _impure(n)


@model("_setjmp", "__sigsetjmp", "sigsetjmp")
def _(ip, v, st, uid, i):
    s2 = st.copy()
    s2.note(i, "%s returns nonzero (resumed by a jump)" % i.d["callee"][1])
    from absint import Outcome
    j = mk("sym", "jmp", uid)
    ip.assume(s2, ip.icmp("eq", j, ZERO), False)
    return [Outcome("ret", ZERO, st), Outcome("ret", j, s2)]


@model("pari_err", "exit", "_exit", "abort", "siglongjmp", "longjmp", "pari_err_TYPE", "pari_err_BUG", "pari_err_OVERFLOW",
       "pari_err_DOMAIN", "pari_err_INV", "pari_err_FLAG", "pari_err_PRIME", "pari_err_IMPL", "pari_err_DIM", "pari_err_OP")
def _(ip, v, st, uid, i):
    from absint import Outcome
    return [Outcome("exit", mk("call", i.d["callee"][1].split(".")[0], *v), st, i)]


# ------------------------------------------------------------- libc
def heap(ip, st, uid, kind):
    h = mk("H", uid, kind)
    # a re-used site (loop iteration) starts afresh
    for k in [k for k in st.mem if k[0] is h]:
        del st.mem[k]
    st.epoch.pop(h, None)
    st.zero.pop(h, None)
    if kind == "calloc":
        st.zero[h] = True
    return h


@model("malloc", "pari_malloc")
def _(ip, v, st, uid, i):
    return heap(ip, st, uid, "malloc")


@model("calloc", "pari_calloc")
def _(ip, v, st, uid, i):
    return heap(ip, st, uid, "calloc")


@model("strlen")
def _(ip, v, st, uid, i):
    return mk("call", "strlen", v[0])


@model("fprintf", "printf", "pari_fprintf", "fflush", "setvbuf", "puts", "fputs", "putchar", "pari_printf", "perror", "fputc",
       "pari_flush", "out_printf", "strcpy", "strcat", "regfree", "timer_delete", "timer_settime", "timer_create", "sigaction",
       "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_signal", "pthread_cond_wait", "pthread_join")
def _(ip, v, st, uid, i):
    return mk("call", i.d["callee"][1], *v, uid)


@model("strtol", "strtoul", "strtoll")
def _(ip, v, st, uid, i):
    t = mk("call", i.d["callee"][1], v[0], v[2])
    if v[1].op != "i":
        ip.store(st, v[1], mk("strend", t))
    return t


@model("try_malloc")
def _(ip, v, st, uid, i):
    return heap(ip, st, uid, "malloc")


@model("try_calloc")
def _(ip, v, st, uid, i):
    return heap(ip, st, uid, "calloc")


@model("try_strdup")
def _(ip, v, st, uid, i):
    h = heap(ip, st, uid, "malloc")
    st.mem[(h, mk("cpy", h))] = mk("str", v[0])
    return h


@model("try_free")
def _(ip, v, st, uid, i):
    return mk("undef")


@model("try_realloc", "realloc", "pari_realloc")
def _(ip, v, st, uid, i):
    h = heap(ip, st, uid, "malloc")
    old = v[0]
    if old.op == "H":
        for (b, o), x in list(st.mem.items()):
            if b is old and not isinstance(o, T):
                st.mem[(h, o)] = x
    else:
        st.mem[(h, mk("cpy", h))] = mk("bytes", old, v[1])
    return h
