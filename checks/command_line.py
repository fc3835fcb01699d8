"""command-line: every documented option has exactly its documented effect on the configuration.

The table of options and the parser are found through the call of argp_parse.  For every documented option and every documented form of
its value (all names, suffixes, lists of up to three names, numbers) the parser is interpreted on that constant value; the resulting
configuration must differ from the one before exactly in the documented fields.  All sequences of field, method, order and randomness options
are followed by the end of the options: incompatible ones must be refused and the others accepted, given values kept and
missing ones filled in."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
import cstrings

ARG, END, NOARGS, ERR_UNKNOWN = 0, 0x1000001, 0x1000002, 7
STATE = mk("H", ("argp_state",))


def off(m, name):
    f, _, sub = name.partition(".")
    return m.off("config_t", f) + (m.off("points_s", sub) if sub else 0)


class Parser:
    def __init__(self, c, m):
        self.c, self.m = c, m
        calls = [(f, i) for f in m.fns.values() if not f.decl and f.repo for i in f.instrs() if i.op == "call" and i.d["callee"] == ["f", "argp_parse"]]
        c.require(len(calls) == 1, "one call of argp_parse expected")
        sc = Scenario(m, method=0, field="FIELD_PRIME")
        self.ip = ip = sc.S.interp()
        ip.unroll = 300
        self.regexes = cstrings.install(ip)
        o = calls[0][1].o[0]
        argp = ip.const(o)
        c.require(argp.op == "G", "the parser is not a constant")
        st = State()

        def rd(p, n=8):
            b, o = split(p)
            return (ip.ginit(b.a[0], o) if b.op == "G" else None) or ip.load(st, p, n)
        self.fn = rd(ptradd(argp, 8))
        c.require(self.fn.op == "F", "the parser is not a constant")
        self.fn = self.fn.a[0]
        tab = rd(argp)
        self.opts = {}
        k = 0
        while k < 200:
            e = ptradd(tab, 48 * k)
            name, key, argn, flags, doc, grp = (rd(ptradd(e, x), y) for x, y in ((0, 8), (8, 4), (16, 8), (24, 4), (32, 8), (40, 4)))
            if all(x is ZERO for x in (name, key, argn, doc, grp)):
                break
            if name is not ZERO:
                n = cstrings.get(ip, st, name)
                c.require(n is not None and key.op == "i" and flags.op == "i", "the option table is not constant")
                self.opts[n] = (key.a[0], "no" if argn is ZERO else "optional" if flags.a[0] & 1 else "yes")
            k += 1
        self.hooks()
        # patterns compiled before the options are parsed
        for f in m.fns.values():
            if not f.decl and f.repo and any(i.op == "call" and i.d["callee"] == ["f", "regcomp"] for i in f.instrs()) and not f.args:
                ip.run(f.name, [], State())
        self.runs = 0

    def hooks(self):
        H = self.ip.hooks

        def failure(ip, v, st, uid, i):
            if len(v) > 1 and v[1].op == "i" and v[1].a[0] == 0:
                return [Outcome("ret", mk("void"), st)]
            return [Outcome("exit", mk("call", "argp_failure"), st)]
        H["argp_failure"] = failure
        for n in ("argp_error", "argp_usage"):
            H[n] = lambda ip, v, st, uid, i: [Outcome("exit", mk("call", "argp_error"), st)]
        H["argp_state_help"] = lambda ip, v, st, uid, i: [Outcome("exit", mk("call", "argp_state_help"), st)]

    def fresh(self, nth=0):
        st = State()
        st.zero[CFG] = True
        for g in ("cfg_used_s", "cfg_set_s"):
            st.zero[mk("G", g)] = True
        st.mem[(STATE, 32)] = I(nth)
        st.mem[(STATE, 40)] = CFG
        return st

    def run(self, st, key, arg=None):
        """outcomes of handling one option"""
        st = st.copy()
        st.trace = None
        self.runs += 1
        if isinstance(arg, str):
            arg = cstrings.put(st, arg, "%s/%d" % (arg, key))
        return self.ip.run(self.fn, [I(key), arg if arg is not None else ZERO, STATE], st), arg

    def field(self, st, name, size=8):
        return self.ip.load(st, ptradd(CFG, off(self.m, name)), size)

    def diff(self, a, b):
        """fields of the configuration that changed"""
        res = {}
        for (base, o), v in b.mem.items():
            if base is CFG and not isinstance(o, T) and a.mem.get((base, o), ZERO) is not v:
                res[o] = v
        for (base, o), v in a.mem.items():
            if base is CFG and (base, o) not in b.mem and v is not ZERO:
                res[o] = ZERO
        return res


REFUSE, ANY = "refuse", "any"


class At(int):
    """the argument string, from this position on"""


def spec(E, thorough):
    """(option, argument, {field: value} or REFUSE)"""
    S = []
    add = lambda n, a, e: S.append((n, a, e))
    add("fp", None, dict(field=E["FIELD_PRIME"]))
    add("f2m", None, dict(field=E["FIELD_BINARY"]))
    M = lambda x, **k: dict(method=E["METHOD_" + x], **k)
    for r in ("3-7", "20-30", "5", "0", "2-"):
        add("invalid", r, M("INVALID", invalid_primes=At(0)))
    add("invalid", None, M("INVALID"))
    for r in ("a", "3-x", "3 7", "0x3", "3,5"):
        add("invalid", r, REFUSE)
    for r in ("7", "12345678901234567890", "0xabcdef", "0XAB", "7,11,13", "0x7,11,0xd"):
        add("order", r, M("CM", cm_order=At(0)))
    for r in ("", "abc", "x"):
        add("order", r, REFUSE)
    for r in ("7,", ",7", "7 11", "abc7", "7x", "7,,11", "0x", "0xg", "-7", "7.5"):
        add("order", r, REFUSE)
    add("anomalous", None, M("ANOMALOUS"))
    add("supersingular", None, M("SUPERSINGULAR"))
    add("twist", None, M("TWIST"))
    for f in ("BN", "BLS12", "BLS24", "KSS16", "KSS18", "KSS36", "KSS40"):
        add("family", f, M("FAMILY", family=E["FAMILY_" + f]))
        add("family", f.lower(), M("FAMILY", family=E["FAMILY_" + f]))
    for f in ("", "BN1", "BLS", "BLS1", "BLS48", "KSS", "KSS8", "xBN", "MNT"):
        add("family", f, REFUSE)
    h40 = "0123456789abcdefABCDEF0123456789abcdef01"
    for n, alg, exact in (("ansi", "ANSI", False), ("brainpool", "BRAINPOOL", True), ("brainpool-rfc", "BRAINPOOL_RFC", True)):
        add(n, None, M("SEED", seed_algo=E["SEED_" + alg]))
        add(n, h40, M("SEED", seed_algo=E["SEED_" + alg], seed=At(0)))
        add(n, "0x" + h40, M("SEED", seed_algo=E["SEED_" + alg], seed=At(0)))
        add(n, h40[:39], REFUSE)
        add(n, "0x" + h40[:39], REFUSE)
        add(n, h40[:-1] + "g", REFUSE)
        add(n, "g" + h40, REFUSE)
        add(n, h40 + "00", REFUSE if exact else M("SEED", seed_algo=E["SEED_" + alg], seed=At(0)))
    add("nums", None, M("SEED", seed_algo=E["SEED_NUMS"]))
    # generation options
    for v in ("1", "2", "5", "10", "100", "4096"):
        add("count", v, dict(count=int(v)))
    R = {"seed": E["RANDOM_SEED"], "field": E["RANDOM_FIELD"], "a": E["RANDOM_A"], "b": E["RANDOM_B"], "equation": E["RANDOM_A"] | E["RANDOM_B"]}
    for k in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for t in itertools.product(sorted(R), repeat=k):
            v = 0
            for x in t:
                v |= R[x]
            add("random", ",".join(t), dict(random=v))
    add("random", None, dict(random=R["seed"] | R["field"] | R["equation"]))
    for v in ("x", "seeds", "see", "A", "a,x", "seed,fields", "ab", "eq"):
        add("random", v, REFUSE)
    add("prime", None, dict(prime=1))
    nums = (1, 2, 3, 4, 7, 8, 10, 12, 15, 16, 31, 64, 100, 255, 256, 1000, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 10 ** 12)
    for v in nums:
        add("smooth", str(v), dict(smooth=1, smooth_value=v))
        add("cofactor", str(v), dict(cofactor=1, cofactor_value=v))
    add("koblitz", None, dict(koblitz=1))
    add("koblitz", "0", dict(koblitz=1))
    add("koblitz", "1", dict(koblitz=1, koblitz_value=1))
    for v in ("2", "-1", "3", "10"):
        add("koblitz", v, REFUSE)
    add("unique", None, dict(unique=1))
    add("metadata", None, dict(metadata=1))
    for v, k in (("abcdef", 0), ("ABCDEF0123456789", 0), ("0xabc", 2), ("0Xabc", 2), ("1", 0), ("00", 0), ("deadbeef", 0), ("0x0", 2), ("0a", 0)):
        add("hex-check", v, dict(hex_check=At(k)))
    for v in ("xyz", "0xg", "12 34", "abcdefg", "0x", "x12", "-1"):
        add("hex-check", v, REFUSE)
    P = {"random": "RANDOM", "prime": "PRIME", "all": "ALL", "nonprime": "NONPRIME", "none": "NONE"}
    for v, t in P.items():
        add("points", v, {"points.type": E["POINTS_" + t]})
    for k in (1, 2, 10, 37, 1000):
        add("points", "%drandom" % k, {"points.type": E["POINTS_RANDOM"], "points.amount": k})
    for v in ("", "foo", "xprime", "rand", "5", "non", "pri", "xnone", "xnonprime", "xall", "xrandom", "5 xprime", "7ball"):
        add("points", v, REFUSE)
    for v in ("x", "in.txt", "/tmp/some where"):
        add("input", v, dict(input=At(0)))
        add("output", v, dict(output=At(0)))
        add("data-dir", v, dict(datadir=At(0)))
        add("verbose", v, dict(verbose=1, verbose_log=At(0)))
    add("append", None, dict(append=1))
    add("verbose", None, dict(verbose=1))
    for n, f in (("memory", "memory"), ("thread-stack", "thread_memory")):
        for suf, k in (("", 1), ("k", 10 ** 3), ("K", 10 ** 3), ("m", 10 ** 6), ("M", 10 ** 6), ("g", 10 ** 9), ("G", 10 ** 9)):
            for v in (1, 2, 10, 64, 999, 1024):
                add(n, "%d%s" % (v, suf), {f: v * k})
        for v in ("", "k", "abc"):
            add(n, v, REFUSE)
    for suf, k in (("", 1), ("s", 1), ("S", 1), ("m", 60), ("M", 60), ("h", 3600), ("H", 3600), ("d", 86400), ("D", 86400)):
        for v in (1, 2, 30, 90, 3600):
            add("timeout", "%d%s" % (v, suf), dict(timeout=v * k))
    for v in ("", "s", "abc"):
        add("timeout", v, REFUSE)
    for v in (1, 2, 8, 64):
        add("threads", str(v), dict(threads=v))
    for v in ("0", "x", ""):
        add("threads", v, REFUSE)
    return S


SHORT = {"anomalous": None, "supersingular": None, "invalid": "i", "order": "n", "ansi": "s", "brainpool": "b", "family": "F", "count": "c", "cofactor": "k", "smooth": "B",
         "koblitz": "K", "prime": "p", "random": "r", "unique": "u", "input": "f", "output": "o", "append": "a", "verbose": "v", "data-dir": "d", "memory": "m",
         "fp": None, "f2m": None, "nums": None, "twist": None, "brainpool-rfc": None, "points": None, "hex-check": None, "metadata": None, "threads": None,
         "thread-stack": None, "timeout": None}
KIND = dict(fp="no", f2m="no", invalid="optional", order="yes", anomalous="no", supersingular="no", twist="no", family="yes", ansi="optional", brainpool="optional", nums="no",
            count="yes", random="optional", prime="no", smooth="yes", cofactor="yes", koblitz="optional", unique="no", metadata="no", points="yes", input="yes", output="yes",
            append="no", verbose="optional", memory="yes", threads="yes", timeout="yes")
KIND.update({"brainpool-rfc": "optional", "hex-check": "yes", "data-dir": "yes", "thread-stack": "yes"})


def show(n, a):
    return "--" + n + ("" if a is None else "=" + a)


def effect(c, P, n, a, want, base, label=""):
    key = P.opts[n][0]
    outs, argp = P.run(base, key, a)
    rets = [o for o in outs if o.kind == "ret"]
    cons = show(n, a) + label
    if want == REFUSE:
        c.obligation(not rets, "refuse/" + n, P.fn, "%s is accepted although it is not a possible value of that option" % cons, rets[0].st.path() if rets else None, cons)
        return None
    if len(outs) != 1 or not rets:
        if not rets:
            c.bad("accept/" + n, P.fn, "%s is refused" % cons, outs[0].st.path() if outs else None)
        else:
            c.ok("undecided")
        return None
    st = rets[0].st
    c.obligation(rets[0].val is ZERO, "known/" + n, P.fn, "%s is reported as an unknown option" % cons, st.path(), cons)
    d = P.diff(base, st)
    exp = {}
    for f, v in want.items():
        v = ptradd(argp, int(v)) if isinstance(v, At) else I(v)
        exp[off(P.m, f)] = (f, v)
    for o, (f, v) in exp.items():
        got = P.field(st, f)
        c.obligation(got is v, "effect/" + n, P.fn, "%s sets %s to %s, not %s" % (cons, f, pretty(got)[:60], pretty(v)[:60]), st.path(), cons)
    for o, v in d.items():
        if o not in exp:
            c.bad("extra/" + n, P.fn, "%s also changes %s" % (cons, fieldname(P.m, o)), st.path())
    return st


def fieldname(m, o):
    for n in ("field method count random prime cm_order koblitz koblitz_value smooth smooth_value cofactor cofactor_value invalid_primes seed_algo seed family unique hex_check points "
              "metadata datadir memory threads thread_memory timeout format output input append verbose verbose_log bits hex_digits").split():
        try:
            if off(m, n) == o:
                return n
        except Exception:
            pass
    return "the configuration (offset %d)" % o


def sequences(c, P, E):
    """all combinations of field, methods, order conditions and randomness: (options, must be refused because)"""
    step = {}

    def after(st, key, arg=None):
        outs, _ = P.run(st, key, arg)
        r = [o for o in outs if o.kind == "ret"]
        return r[0].st if len(r) == 1 and len(outs) == 1 else None
    meths = {"order": ("CM", "7"), "anomalous": ("ANOMALOUS", None), "ansi": ("SEED", None), "brainpool": ("SEED", None), "brainpool-rfc": ("SEED", None), "nums": ("SEED", None),
             "invalid": ("INVALID", None), "twist": ("TWIST", None), "supersingular": ("SUPERSINGULAR", None), "family": ("FAMILY", "BN")}
    msel = [()] + [(x,) for x in meths] + [p for p in itertools.combinations(meths, 2) if meths[p[0]][0] != meths[p[1]][0]]
    prime_only = {"order", "anomalous", "brainpool", "brainpool-rfc", "nums", "supersingular", "family"}
    n = acc = 0
    base = P.fresh()
    for fs in ((), ("fp",), ("f2m",), ("fp", "f2m")):
        s1 = base
        for f in fs:
            s1 = s1 and after(s1, P.opts[f][0])
        for ms in msel:
            s2 = s1
            for x in ms:
                s2 = s2 and after(s2, P.opts[x][0], meths[x][1])
            for cond in [k for r in range(4) for k in itertools.combinations(("prime", "cofactor", "smooth"), r)]:
                if len(ms) == 2 and len(cond) > 1 or len(fs) != 1 and len(cond) + len(ms) > 2:
                    continue
                s3 = s2
                for x in cond:
                    s3 = s3 and after(s3, P.opts[x][0], None if x == "prime" else "4")
                for rnd in (None, ("random", None), ("random", "a")):
                    if rnd and rnd[1] and (len(ms) > 1 or cond):
                        continue
                    s4 = s3 and (after(s3, P.opts["random"][0], rnd[1]) if rnd else s3)
                    s5 = s4 and after(s4, ARG, "192")
                    if s5 is None:
                        c.ok("undecided")
                        continue
                    why = []
                    if len(fs) != 1:
                        why.append("there must be exactly one field")
                    if len(ms) > 1:
                        why.append("there are two methods")
                    if len(cond) > 1:
                        why.append("only one of --prime, --cofactor and --smooth is possible")
                    if fs == ("f2m",) and set(ms) & prime_only:
                        why.append("the method only works over prime fields")
                    if ms == ("nums",) and rnd:
                        why.append("NUMS is deterministic")
                    if ms == ("anomalous",) and not rnd:
                        why.append("anomalous curves are random")
                    outs, _ = P.run(s5, END)
                    n += 1
                    ret = [o for o in outs if o.kind == "ret"]
                    text = " ".join(["--" + x for x in fs + ms + cond] + ([show(*rnd)] if rnd else [])) or "(no options)"
                    if why:
                        c.obligation(not ret, "conflict", P.fn, "%s is accepted although %s" % (text, why[0]), ret[0].st.path() if ret else None, text)
                        continue
                    if len(outs) > 1 and ret:
                        c.ok("undecided")
                        continue
                    acc += 1
                    if not ret:
                        c.bad("compatible", P.fn, "%s is refused" % text, outs[0].st.path() if outs else None)
                        continue
                    c.ok("compatible")
                    d = P.diff(s5, ret[0].st)
                    dflt = {"count": 1, "memory": None, "threads": 1, "thread_memory": None, "format": 0}
                    for f, v in dflt.items():
                        o = off(P.m, f)
                        got = P.field(ret[0].st, f)
                        good = got is I(v) if v is not None else got.op != "i" or got.a[0] > 0
                        c.obligation(good, "default/" + f, P.fn, "without the option, %s is %s (%s)" % (f, pretty(got)[:40], text), None, text)
                        d.pop(o, None)
                    for o in d:
                        c.bad("default/extra", P.fn, "at the end of the options %s is changed (%s)" % (fieldname(P.m, o), text), ret[0].st.path())
    # given values are kept
    for given in ({"count": "5"}, {"memory": "7m"}, {"threads": "3"}, {"thread-stack": "9k"}, {"timeout": "2m"}, {"count": "2", "threads": "4", "memory": "1g", "thread-stack": "5m"}):
        s = after(base, P.opts["fp"][0])
        for x, v in given.items():
            s = s and after(s, P.opts[x][0], v)
        for bits in ("10", "64", "192", "521"):
            s2 = s and after(s, ARG, bits)
            outs, _ = P.run(s2, END) if s2 else ([], None)
            if len(outs) != 1:
                c.ok("undecided")
                continue
            text = " ".join(show(*x) for x in given.items())
            if outs[0].kind != "ret":
                c.bad("compatible", P.fn, "%s is refused" % text, outs[0].st.path())
                continue
            for x in given:
                f = {"thread-stack": "thread_memory"}.get(x, x)
                c.obligation(P.field(outs[0].st, f) is P.field(s2, f), "kept/" + f, P.fn, "the value of --%s is replaced at the end of the options (%s)" % (x, text), outs[0].st.path(), text)
    return n, acc


def rule(c):
    m = load_module()
    E = m.enums
    P = Parser(c, m)
    for n, kind in KIND.items():
        if n not in P.opts:
            c.bad("option/" + n, "argp options", "there is no option --%s" % n)
            continue
        key, k = P.opts[n]
        c.obligation(k == kind, "option/" + n, "argp options", "--%s takes %s argument, documented is %s" % (n, k, kind))
        s = SHORT[n]
        c.obligation(s is None or key == ord(s), "short/" + n, "argp options", "the short form of --%s is not -%s" % (n, s))
    for a, b in itertools.combinations(sorted(x for x in P.opts), 2):
        c.obligation(P.opts[a][0] != P.opts[b][0], "distinct", "argp options", "--%s and --%s cannot be told apart" % (a, b))
    S = spec(E, c.tier == "thorough")
    base = P.fresh()
    cases = 0
    for n, a, want in S:
        if n in P.opts:
            cases += 1
            effect(c, P, n, a, want, base)
    # an option leaves what earlier options have set alone
    firsts = [("fp", None), ("count", "3"), ("random", "seed"), ("koblitz", "1"), ("cofactor", "4"), ("smooth", "16"), ("hex-check", "ab"), ("points", "3random"), ("memory", "5m"),
              ("thread-stack", "6m"), ("timeout", "7"), ("threads", "2"), ("output", "o"), ("input", "i"), ("verbose", "l"), ("unique", None), ("metadata", None), ("append", None)]
    s = base
    for n, a in firsts:
        if n not in P.opts:
            return
        outs, _ = P.run(s, P.opts[n][0], a)
        if len(outs) != 1 or outs[0].kind != "ret":
            return
        s = outs[0].st
    for n, a in (("prime", None), ("invalid", "3-7"), ("order", "7"), ("anomalous", None), ("supersingular", None), ("twist", None), ("family", "KSS18"), ("ansi", None), ("brainpool", None),
                 ("nums", None), ("brainpool-rfc", None), ("data-dir", "x")):
        outs, argp = P.run(s, P.opts[n][0], a)
        if len(outs) == 1 and outs[0].kind == "ret":
            want = [w for x, y, w in S if x == n and y == a]
            allowed = {off(P.m, f) for w in want if w != REFUSE for f in w}
            if want:
                for o in P.diff(s, outs[0].st):
                    c.obligation(o in allowed, "extra/" + n, P.fn, "%s also changes %s" % (show(n, a), fieldname(P.m, o)), outs[0].st.path())
    for a in ("seed", "field", "a", "b"):
        outs, _ = P.run(s, P.opts["random"][0], a)
        if len(outs) == 1 and outs[0].kind == "ret":
            v = E["RANDOM_" + a.upper()] | E["RANDOM_SEED"]
            c.obligation(P.field(outs[0].st, "random") is I(v), "effect/random", P.fn, "--random=seed --random=%s does not make both random" % a, outs[0].st.path())
    # the size
    for b in list(range(10, 600)) + [1023, 1024, 2000, 9999]:
        outs, _ = P.run(base, ARG, str(b))
        if len(outs) != 1:
            c.ok("undecided")
            continue
        if outs[0].kind != "ret":
            c.bad("bits", P.fn, "the size %d is refused" % b, outs[0].st.path())
            continue
        c.obligation(P.field(outs[0].st, "bits") is I(b), "bits", P.fn, "for the size %d the field has %s bits" % (b, pretty(P.field(outs[0].st, "bits"))), outs[0].st.path())
        c.obligation(P.field(outs[0].st, "hex_digits") is I(2 * ((b + 7) // 8)), "hex_digits", P.fn,
                     "for the size %d numbers are written with %s digits" % (b, pretty(P.field(outs[0].st, "hex_digits"))), outs[0].st.path())
    for a in ("x", "12x", "0x10", "1 2", "-fp"):
        outs, _ = P.run(base, ARG, a)
        c.obligation(not any(o.kind == "ret" for o in outs), "bits/refuse", P.fn, "the size \"%s\" is accepted" % a)
    outs, _ = P.run(P.fresh(1), ARG, "192")
    c.obligation(not any(o.kind == "ret" for o in outs), "bits/second", P.fn, "a second size is accepted")
    outs, _ = P.run(base, NOARGS)
    c.obligation(not any(o.kind == "ret" for o in outs), "bits/none", P.fn, "the size may be left out")
    outs, _ = P.run(base, 0x7fff)
    c.obligation(not any(o.kind == "ret" and o.val is not I(ERR_UNKNOWN) for o in outs), "unknown", P.fn, "unknown keys are not reported to argp")
    nseq, nacc = sequences(c, P, E)
    c.cov.update(options=len(P.opts), values=cases, combinations=nseq, accepted=nacc, runs=P.runs)


if __name__ == "__main__":
    main("P14", __doc__, rule)
