"""ignored-options: exactly the options a method does not honour are reported.

The program is interpreted from main() once for every method with each option absent and present; an option is honoured if the generators,
arguments or checks of some stage (or, for --count, the program's own control) depend on it.  When the warnings are printed the
option must be marked as used exactly if it is honoured.  The parser must mark each given option, and the report must print a warning naming the option
exactly for those marked as given and not as used."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
import cstrings, command_line

USED, SET_, REP = mk("G", "cfg_used_s"), mk("G", "cfg_set_s"), mk("G", "#reported")
METHODS = [("default", dict(method=0), ("FIELD_PRIME", "FIELD_BINARY")), ("twist", dict(method="METHOD_TWIST"), ("FIELD_PRIME", "FIELD_BINARY")),
           ("order", dict(method="METHOD_CM"), ("FIELD_PRIME",)), ("anomalous", dict(method="METHOD_ANOMALOUS", random=15), ("FIELD_PRIME",)),
           ("supersingular", dict(method="METHOD_SUPERSINGULAR"), ("FIELD_PRIME",)), ("ansi", dict(method="METHOD_SEED", seed_algo="SEED_ANSI"), ("FIELD_PRIME", "FIELD_BINARY")),
           ("brainpool", dict(method="METHOD_SEED", seed_algo="SEED_BRAINPOOL"), ("FIELD_PRIME",)), ("brainpool-rfc", dict(method="METHOD_SEED", seed_algo="SEED_BRAINPOOL_RFC"), ("FIELD_PRIME",)),
           ("nums", dict(method="METHOD_SEED", seed_algo="SEED_NUMS"), ("FIELD_PRIME",)), ("family", dict(method="METHOD_FAMILY"), ("FIELD_PRIME",)),
           ("invalid", dict(method="METHOD_INVALID"), ("FIELD_PRIME", "FIELD_BINARY"))]
BASE = dict(hex_check=0, prime=0, smooth=0, cofactor=0, unique=0, seed_algo=0, koblitz=0, metadata=0, random=0, seed=0, points__type=0, points__amount=0, koblitz_value=0, threads=1, verbose=0,
            count=1)
OPTIONS = dict(koblitz=dict(koblitz=1), koblitz_value=dict(koblitz=1, koblitz_value=1), hex_check=dict(hex_check=4096), metadata=dict(metadata=1), random=dict(random=15),
               points=dict(points__type="POINTS_ALL"), seed=dict(seed=4096), unique=dict(unique=1), prime=dict(prime=1), cofactor=dict(cofactor=1, cofactor_value=4), smooth=dict(smooth=1, smooth_value=20),
               count=dict(count=2))
RICH = dict(random=15, prime=1, unique=1, metadata=1, hex_check=4096, points__type="POINTS_ALL", count=3)
ORDER = ("unique", "prime", "cofactor", "smooth")       # that they are honoured where marked as used is another property


def reporter(m):
    """the function that prints the warnings: it reads both sets of flags and takes nothing"""
    res = []
    for f in m.repo_fns():
        names = set()
        for i in f.instrs():
            for o in ([x[0] for x in i.o] if i.op == "phi" else i.o or []):
                if o and o[0] in "g":
                    names.add(o[1])
        if names & {"cfg_set", "cfg_set_s"} and names & {"cfg_used", "cfg_used_s"} and not f.args:
            res.append(f)
    return res


class Case:
    def __init__(self, m, opts, rep, flags):
        fx = {}
        for k, v in opts.items():
            if isinstance(v, str):
                v = m.enums[v]
            n = k.split("__")
            fx[n[0] if len(n) == 1 else (n[0], {"type": 0, "amount": 8}[n[1]])] = v
        self.reads = set()
        cnt = m.off("config_t", "count")

        def extra(w):
            ip = w.ip

            def report(ip, v, st, uid, i):
                for n, o in flags.items():
                    ip.store(st, ptradd(REP, o), ip.load(st, ptradd(USED, o), 1))
                ip.store(st, ptradd(REP, 1000), ONE)
                return [Outcome("ret", mk("void"), st)]
            for f in rep:
                ip.hooks[f.dname] = report
                w.rel.add(f.name)
            cap = ip.hooks["exhaustive_gen_retry"]

            def capture(ip, v, st, uid, i):
                outs = cap(ip, v, st, uid, i)
                for o in outs:
                    ip.store(o.st, ptradd(REP, 1008), ONE)
                return outs
            ip.hooks["exhaustive_gen_retry"] = capture
            load = ip.load

            def ld(st, p, size=8, ins=None):
                if p.op == "p" and p.a[0] is CFG and p.a[1] == cnt and ins is not None:
                    self.reads.add("count")
                return load(st, p, size, ins)
            ip.load = ld
        self.m, self.S = m, Stages(m, Wiring(m, extra=extra, fixed=fx))
        self.flags = flags
        self.sc = Scenario.__new__(Scenario)
        self.sc.m, self.sc.opts, self.sc.S = m, opts, self.S
        self.sc.ip = self.S.interp()

    def argsig(self, u):
        st = u.state()

        def g(t, d=0):
            if t.op in ("H", "A") and d < 5:
                vs = sorted((o, v) for (b, o), v in st.mem.items() if b is t and not isinstance(o, T))
                return "{" + ",".join("%d:%s" % (o, g(v, d + 1)) for o, v in vs) + "}"
            return pretty(t)[:80]
        return g(u.arg)

    def sig(self):
        r = set()
        for run in self.S.runs:
            for st in range(9):
                for u in self.S.units(run, st):
                    r.add((run.fn.dname, st, u.name if u.gen is not ZERO else "-", self.argsig(u), tuple((f, pretty(a)[:60]) for f, a in self.sc.checks(u))))
        return r

    def states(self):
        """states in which the warnings have been printed, and whether they always are"""
        ss = [r.st for r in self.S.runs]
        if ss and not any(self.S.w.ip.load(s, ptradd(REP, 1000)) is ONE for s in ss):
            ss = [o.st for o in self.S.w.outs if o.kind == "ret" and self.S.w.ip.load(o.st, ptradd(REP, 1008)) is ONE]
        return ss


def one(args):
    name, o, field, X, v, m, rep, flags, rich = args
    d = dict(BASE, field=field)
    d.update(rich)
    d.update(o)
    for k in v:
        d[k] = BASE.get(k, 0)
    if X == "koblitz_value":
        d["koblitz"] = 1
    off = Case(m, d, rep, flags)
    d2 = dict(d)
    d2.update(v)
    on = Case(m, d2, rep, flags)
    honoured = off.sig() != on.sig()
    if X == "count":
        honoured = "count" in on.reads
    res = []
    for s in on.states():
        w = on.S.w.ip
        if w.load(s, ptradd(REP, 1000)) is not ONE:
            res.append(("silent", s.path()[-30:]))
            continue
        res.append((w.load(s, ptradd(REP, flags[X])) is ONE, s.path()[-30:]))
    return name, field, X, honoured, res


_J = []


def job(k):
    return one(_J[k])


NAMES = dict(koblitz="--koblitz", koblitz_value="--koblitz", hex_check="--hex-check", metadata="--metadata", random="--random", points="--points", seed="seed", unique="--unique", prime="--prime",
             cofactor="--cofactor", smooth="--smooth", count="--count", field="field", method="method", cm_order="--order", invalid_primes="--invalid", seed_algo="seed")


def report_text(c, m, rep, flags):
    """for every flag and every combination of given and used: the warning"""
    n = 0
    for f in flags:
        if f not in NAMES:
            continue
        for s, u in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for others in ("none", "all"):
                texts, known = [], True
                for g in rep:
                    sc = Interp(m)
                    cstrings.install(sc)

                    def out(ip, v, st, uid, i):
                        t = [x for x in (cstrings.get(ip, st, y) for y in v) if x]
                        st.mem[(mk("G", "#text"), len([1 for k in st.mem if k[0] is mk("G", "#text")]))] = mk("str", " ".join(t))
                        return [Outcome("ret", mk("call", "out", uid), st)]
                    for h in ("fprintf", "fputs", "fwrite", "puts", "printf", "pari_fprintf", "fputs_unlocked", "dprintf", "perror"):
                        sc.hooks[h] = out
                    st = State()
                    for n_, o in flags.items():
                        st.mem[(SET_, o)] = I(1) if others == "all" else ZERO
                        st.mem[(USED, o)] = I(1) if others == "all" else ZERO
                    st.mem[(SET_, flags[f])], st.mem[(USED, flags[f])] = I(s), I(u)
                    outs = sc.run(g.name, [], st)
                    if len(outs) != 1 or outs[0].kind != "ret":
                        known = False
                        continue
                    texts += [v.a[0] for (b, o), v in outs[0].st.mem.items() if b is mk("G", "#text")]
                if not known:
                    c.ok("undecided")
                    continue
                n += 1
                t = " ".join(texts)
                if s and not u:
                    c.obligation(NAMES[f] in t, "warning/" + f, rep[0].dname, "no warning names %s when it is given and not used: \"%s\"" % (NAMES[f], t[:80].replace("\n", " ")), None, f)
                else:
                    c.obligation(not t, "warning/" + f, rep[0].dname, "a warning about %s is printed although it was %s: \"%s\"" % (f, "used" if s else "not given", t[:80].replace("\n", " ")), None, f)
    return n


def parser(c, m, flags):
    P = command_line.Parser(c, m)
    want = dict(prime=(None, {"prime"}), smooth=("20", {"smooth"}), cofactor=("4", {"cofactor"}), unique=(None, {"unique"}), metadata=(None, {"metadata"}), points=("all", {"points"}),
                random=(None, {"random"}), count=("3", {"count"}), koblitz=(None, {"koblitz"}), fp=(None, {"field"}), f2m=(None, {"field"}), twist=(None, {"method"}), order=("7", {"method", "cm_order"}),
                invalid=("3-7", {"method", "invalid_primes"}), anomalous=(None, {"method"}), nums=(None, {"method", "seed_algo"}))
    want["hex-check"] = ("ab", {"hex_check"})
    items = [(n, a, w) for n, (a, w) in want.items()] + [("koblitz", "1", {"koblitz", "koblitz_value"}), ("invalid", None, {"method"}), ("random", "a", {"random"}), ("points", "5random", {"points"})]
    for n in ("ansi", "brainpool", "brainpool-rfc"):
        items += [(n, None, {"method", "seed_algo"}), (n, "0123456789abcdef0123456789abcdef01234567", {"method", "seed_algo", "seed"})]
    for n in ("input", "output", "data-dir", "memory", "timeout", "threads", "verbose", "append", "thread-stack"):
        items.append((n, None if n == "append" else "3", set()))
    k = 0
    for n, a, w in items:
        if n not in P.opts:
            continue
        outs, _ = P.run(P.fresh(), P.opts[n][0], a)
        r = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1 or not r:
            c.ok("undecided")
            continue
        k += 1
        got = {f for f, o in flags.items() if P.ip.load(r[0].st, ptradd(SET_, o), 1) is not ZERO}
        c.obligation(got == w, "given/" + n, P.fn, "%s marks %s as given, not %s" % (command_line.show(n, a), "/".join(sorted(got)) or "nothing", "/".join(sorted(w)) or "nothing"), r[0].st.path(), n)
    return k


def rule(c):
    m = load_module()
    rep = reporter(m)
    if not rep:
        c.bad("report", "program", "no function prints warnings about ignored options")
        return
    flags = {nm: o for o, sz, nm, t in m.types["config_names_t"]["members"]}
    for name, o, fields in METHODS:
        for f in fields:
            for X, v in OPTIONS.items():
                if X == "random" and name == "anomalous":
                    continue
                _J.append((name, o, f, X, v, m, rep, flags, {}))
                if X not in ORDER and (c.tier == "thorough" or name in ("default", "twist", "ansi", "invalid") and f == "FIELD_PRIME"):
                    _J.append((name, o, f, X, v, m, rep, flags, RICH if name != "nums" else {k: w for k, w in RICH.items() if k != "random"}))
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(8) as pool:
        rows = pool.map(job, range(len(_J)), chunksize=1)
    nr = 0
    for name, field, X, honoured, res in rows:
        lab = "%s, --%s" % (name, "fp" if field == "FIELD_PRIME" else "f2m")
        for u, path in res:
            nr += 1
            if u == "silent":
                c.bad("silent", rep[0].dname, "ignored options are not reported (%s)" % lab, path)
            elif honoured and X not in ORDER[1:]:
                c.obligation(u, "honoured/" + X, lab, "the warnings say that %s is ignored although the curves depend on it (%s)" % (NAMES[X], lab), path, lab)
            elif not honoured and X not in ORDER:
                c.obligation(not u, "ignored/" + X, lab, "%s is ignored without a warning (%s)" % (NAMES[X], lab), path, lab)
    n1 = report_text(c, m, rep, flags)
    n2 = parser(c, m, flags)
    c.cov.update(configurations=len(rows), states=nr, report_cases=n1, options=n2)


if __name__ == "__main__":
    main("P15", __doc__, rule)
