"""param-sources: every chosen parameter comes from the source the options select, and entered values are taken as entered.

For every class of command lines (each subset of --random, each method with free parameters) the wired seed, field, a and b stages are
interpreted.  In every accepting state the recorded value must be drawn by the random generator over the whole field where the options
ask for a random value, be the value of the --koblitz option for Koblitz curves, and otherwise be exactly the number read from the input (its sign
included), taken modulo p or as the polynomial whose coefficients are its binary digits.  Entered values may be rejected only for being empty, too large or unsuitable,
never for being equal to some particular number, and the end of the input stops the generation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stages import *
from callgraph import CallGraph

RANDOM = {"genrand", "random_bits", "randomi", "randomprime", "ffrandom", "random_Fl", "random_F2x", "ellrandom", "getrandom"}
READ = {"getdelim", "getline", "fgets", "fgetc", "fread"}


def hooks(ip):
    def toggle(ip, v, st, uid, i):
        f = mk("bool", "negated", v[0])
        st.facts[f] = not st.facts.get(f, False)
        return [Outcome("ret", mk("void"), st)]
    ip.hooks["togglesign"] = toggle
    ip.hooks["togglesign_safe"] = lambda ip, v, st, uid, i: toggle(ip, [ip.load(st, v[0])], st, uid, i)
    base = ip.icmp

    def icmp(pred, a, b, st=None):
        # a number parsed from a string is a new object, never one of the universal constants -1 and -2
        if pred == "eq":
            for x, y in ((a, b), (b, a)):
                if x.op == "z" and x.a[0] in (-1, -2) and (y.op == "call" and y.a[0] in ("strtoi",) or y.op == "z" and y is not x):
                    return ZERO
        return base(pred, a, b, st)
    ip.icmp = icmp


RANDF, READF = set(), set()      # functions of the program that draw random numbers / read input on the way


def origin(t):
    """where the value comes from"""
    res = set()
    for x in atoms(t):
        if x.op == "call" and x.a[0] in RANDF:
            res.add("random")
        if x.op == "call" and x.a[0] in READF:
            res.add("input")
        if x.op == "call" and x.a[0] in RANDOM:
            res.add("random")
        if x.op == "call" and x.a[0] in READ or x.op == "out" and any(y.op == "call" and y.a[0] in READ for y in atoms(x)):
            res.add("input")
    return res


class J:
    def __init__(self, c, sc, o):
        self.c, self.sc, self.ip, self.m, self.o = c, sc, sc.ip, sc.m, o
        self.F = mk("ld", ptradd(CUR, self.m.off("curve_t", "field")))
        self.binary = o.get("field") == "FIELD_BINARY"

    def state(self, u, stage):
        st = self.sc.S.curve_state(u)
        if stage > FIELD:
            self.ip.assume(st, self.ip.icmp("eq", mk("typ", self.F), I(5 if self.binary else 1)), True)
        return st

    # -- the number that was entered
    def entered(self, st, x):
        """x is the number written in the line that was read: True, or the reason why not"""
        neg = bool(st.facts.get(mk("bool", "negated", x)))
        t = x
        if x.op == "P":
            c, s = pcanon(x)
            if s == -1:
                t, neg = c, not neg
            if t.op == "P" and len(t.a[0]) == 1 and t.a[0][0][1] == -1:
                t, neg = pneg(t), not neg
        if not (t.op == "call" and t.a[0] in ("strtoi", "gp_read_str")):
            return "it is not the number that was read"
        p = t.a[1]
        b = p.a[0] if p.op == "px" else split(p)[0]
        if not any(y.op == "call" and y.a[0] in READ for y in atoms(b)):
            return "it is not read from the input"
        first = mk("ld", b)
        isneg = None
        for f, v in st.facts.items():
            if f.op == "cmp" and f.a[0] == "eq" and I(45) in f.a[1:] and any(y.op == "ld" and y.a[0] is b for y in atoms(f)):
                isneg = v
        if p.op == "px":
            idx = p.a[2].a
            off = p.a[1] + (int(bool(isneg)) * idx[1] if len(idx) == 2 and idx[0].op in ("cmp", "not", "zext", "and") and isneg is not None else 99)
        else:
            off = split(p)[1]
        if isneg is None:
            return True if off == 0 and not neg else "its sign is not looked at"
        if off != int(isneg):
            return "part of the entered text is left out"
        if neg != isneg:
            return "its sign is not the one that was entered"
        return True

    def element(self, st, v, x0=None):
        """v as a field element of an entered number: the number"""
        F = self.F
        if not self.binary:
            if v.op == "vec" and v.a[0] == 3 and len(v.a) == 3 and v.a[1] is F:
                return v.a[2]
            if v.op == "mod" and v.a[1] is F:
                return v.a[0]
            if v.op == "call" and v.a[0] == "strtoi":
                return v if self.ip.decide(st, self.ip.icmp("slt", mk("sgn", psub(F, v)), ONE)) is False else None
            return None
        if v.op == "call" and v.a[0] in ("Fq_to_FF", "FpXQ_to_FF_", "FF_map_") and v.a[2] is F:
            p = v.a[1]
            if p.op == "call" and p.a[0] == "gtopoly":
                d = p.a[1]
                if d.op == "call" and d.a[0] in ("digits", "binary_zv_") and (len(d.a) < 3 or d.a[2] is z(2)):
                    return d.a[1]
        return None

    def is_random(self, st, v):
        F = self.F

        def draw(x):
            """uniformly from all of F"""
            if x.op == "call" and x.a[0] in ("genrand", "ffrandom", "randomi") and x.a[1] is F:
                return True
            if x.op == "call" and x.a[0] == "genrand" and x.a[1].op == "vec" and len(x.a[1].a) == 3 and x.a[1].a[1] is z(0) and x.a[1].a[2] is psub(F, z(1)):
                return True
            return False
        if draw(v):
            return True
        if v.op == "vec" and v.a[0] == 3 and v.a[1] is F:
            return draw(v.a[2])
        return v.op == "mod" and v.a[1] is F and draw(v.a[0])


def coefficient(c, j, u, stage, want, lab):
    sc, ip, nm = j.sc, j.ip, STAGE[stage]
    outs = sc.outcomes(u, j.state(u, stage))
    acc = 0
    for o in outs:
        s = o.st
        if o.kind != "ret":
            continue
        ok = s.copy()
        if ip.assume(ok, ip.icmp("eq", o.val, ONE), True):
            acc += 1
            v = sc.cur(ok, FIELDOF[stage])
            if v.op in ("ld", "undef") and base_of(v.a[0] if v.op == "ld" else v.a[0]) is CUR or v is ZERO:
                c.bad("%s/unset" % nm, u.name, "%s is not set at all (%s)" % (nm, lab), s.path())
                continue
            if want == "random":
                c.obligation(j.is_random(ok, v), "%s/random" % nm, u.name,
                             "%s is not drawn at random from the whole field although it was asked for: %s (%s)" % (nm, pretty(v)[:120], lab), s.path(), lab)
            elif want == "input":
                x = j.element(ok, v)
                if x is None:
                    c.bad("%s/input" % nm, u.name, "%s is not the field element that was entered: %s (%s)" % (nm, pretty(v)[:160], lab), s.path())
                    continue
                r = j.entered(ok, x)
                c.obligation(r is True, "%s/input" % nm, u.name, "%s is not the value that was entered: %s (%s)" % (nm, r, lab), s.path(), lab)
            else:
                y = v.a[2] if v.op == "vec" and v.a[0] == 3 and v.a[1] is j.F else v
                good = y.op == "z" and y.a[0] == want
                c.obligation(good, "%s/constant" % nm, u.name, "%s is not %d: %s (%s)" % (nm, want, pretty(v)[:100], lab), s.path(), lab)
            continue
        if want == "input":
            refused(c, j, u, nm, o, lab)
    if want == "input":
        c.obligation(acc > 0, "%s/accepts" % nm, u.name, "no entered value is ever accepted (%s)" % lab, None, lab)
    return acc


def refused(c, j, u, nm, o, lab):
    """the stage did not succeed although a value was read"""
    s, ip = o.st, j.ip
    reads = {x for f in s.facts for x in atoms(f) if x.op == "call" and x.a[0] in READ}
    eof = any(ip.decide(s, ip.icmp("slt", ZERO, x)) is False for x in reads)
    if eof:
        c.obligation(o.val.op == "i" and o.val.a[0] == INT_MIN, "%s/eof" % nm, u.name,
                     "the generation goes on although the input has ended (%s)" % lab, s.path(), lab)
        return
    for f, v in s.facts.items():
        if v is True and f.op == "zeq":
            x = f.a[0]
            ps = [a for a in atoms(x) if a.op == "call" and a.a[0] == "strtoi"]
            if ps and x.op in ("P", "call") and not any(a.op == "ld" and base_of(a.a[0]) in (CUR, CFG) for a in atoms(x)) and j.element is not None and nm in ("a", "b"):
                k = psub(x, ps[0])
                if k.op == "z" or padd(x, ps[0]).op == "z":
                    c.bad("%s/refused" % nm, u.name, "an entered value is refused because it is %s (%s)" % (pretty(pneg(k) if k.op == "z" else padd(x, ps[0])), lab), s.path())
    c.ok("%s/refusals" % nm)


def source(c, j, u, stage, want, lab, get):
    """coarser: where does the value come from"""
    n, hit = 0, None
    for st in j.sc.accepted(u, j.state(u, stage)):
        n += 1
        t = get(st)
        if t is None:
            continue
        o = origin(t)
        sd = j.sc.ip.load(st, ptradd(CFG, j.m.off("config_t", "seed")))
        if sd.op != "i" and any(x is sd for x in atoms(t)):
            o.add("option")
        c.obligation(o <= {want}, "%s/source" % STAGE[stage], u.name,
                     "the %s should come from %s but comes from %s (%s)" % (STAGE[stage], want, "/".join(sorted(o)), lab), st.path(), lab)
        hit = hit or o == {want}
    c.obligation(hit is not False, "%s/source" % STAGE[stage], u.name, "the %s never comes from %s (%s)" % (STAGE[stage], want, lab), None, lab)
    return n


def rule(c):
    m = load_module()
    cg = CallGraph(m)
    RANDF.update(cg.callers_closure([f for f in m.fns if f in RANDOM], False))
    READF.update(cg.callers_closure([f for f in m.fns if f in READ], False))
    n, acc, done = 0, 0, set()
    E = m.enums
    RF, RA, RB, RS = E.get("RANDOM_FIELD", 2), E.get("RANDOM_A", 4), E.get("RANDOM_B", 8), E.get("RANDOM_SEED", 1)
    base = dict(hex_check=0, prime=0, smooth=0, cofactor=0, unique=0, seed_algo=0)
    scs = []
    masks = (0, RF, RA, RB, RA | RB, RF | RA, RF | RB, RS, RS | RF | RA | RB)
    for name, meth in (("normal", 0), ("twist", "METHOD_TWIST"), ("invalid", "METHOD_INVALID")):
        for f in ("FIELD_PRIME", "FIELD_BINARY"):
            if name == "invalid" and f == "FIELD_BINARY":
                continue
            for r in masks:
                for kob in (None, 0, 1):
                    if kob is not None and r not in (0, RF, RA | RB):
                        continue
                    o = dict(base, method=meth, field=f, random=r, koblitz=0 if kob is None else 1)
                    if kob is not None:
                        o["koblitz_value"] = kob
                    if name == "invalid":
                        o["threads"] = 1
                    scs.append((name, o, kob))
                    if r in (0, RF | RA | RB | RS) and name == "normal" or r == 0 and name == "twist":
                        for x in ("prime", "cofactor", "smooth", "unique", "metadata"):
                            scs.append((name, dict(o, **{x: 1}), kob))
    for name, o, kob in scs:
        sc = Scenario(m, **o)
        hooks(sc.ip)
        j = J(c, sc, o)
        r = o["random"]
        lab = "%s, %s, --random=%s%s" % (name, o["field"], ",".join(x for x, b in (("seed", RS), ("field", RF), ("a", RA), ("b", RB)) if r & b) or "(no)",
                                       "" if kob is None else ", --koblitz=%d" % kob)
        for u in sc.units(FIELD):
            w = "random" if r & RF else "input"
            key = (u.name, FIELD, w, o["field"])
            if key not in done:
                done.add(key)
                n += 1
                acc += field(c, j, u, w, lab)
        for st, bit, kv in ((A, RA, kob), (B, RB, 1 if kob is not None else None)):
            w = kv if kv is not None else ("random" if r & bit else "input")
            for u in sc.units(st):
                key = (u.name, st, w, o["field"])
                if key in done:
                    continue
                done.add(key)
                n += 1
                acc += coefficient(c, j, u, st, w, lab)
    # the ANSI procedure, supersingular curves and families
    for r in (0, RF, RS, RF | RS):
        for f in ("FIELD_PRIME", "FIELD_BINARY"):
            for seed in (0, None):
                o = dict(base, method="METHOD_SEED", seed_algo="SEED_ANSI", field=f, random=r, koblitz=0)
                seeds(c, m, o, r & RS, seed, "ansi, --random mask %d" % r, done)
                sc = Scenario(m, **(dict(o, seed=0) if seed == 0 else o))
                hooks(sc.ip)
                j = J(c, sc, o)
                for u in sc.units(FIELD):
                    w = "random" if r & RF else "input"
                    if (u.name, FIELD, w, f) not in done:
                        done.add((u.name, FIELD, w, f))
                        n += 1
                        acc += field(c, j, u, w, "ansi")
    for alg in ("SEED_BRAINPOOL", "SEED_BRAINPOOL_RFC"):
        for r in (0, RS):
            for seed in (0, None):
                seeds(c, m, dict(base, method="METHOD_SEED", seed_algo=alg, field="FIELD_PRIME", random=r, koblitz=0), r & RS, seed, "%s, --random mask %d" % (alg, r), done)
    for r in (0, RS | RF | RA | RB):
        seeds(c, m, dict(base, method="METHOD_FAMILY", field="FIELD_PRIME", random=r, koblitz=0), r, 0, "family, --random mask %d" % r, done)
    for r in (0, RF):
        sc = Scenario(m, **dict(base, method="METHOD_SUPERSINGULAR", field="FIELD_PRIME", random=r, koblitz=0))
        hooks(sc.ip)
        j = J(c, sc, dict(field="FIELD_PRIME"))
        for u in sc.units(FIELD):
            w = "random" if r & RF else "input"
            if (u.name, FIELD, w, "FIELD_PRIME") not in done:
                done.add((u.name, FIELD, w, "FIELD_PRIME"))
                n += 1
                acc += field(c, j, u, w, "supersingular, --random mask %d" % r)
            else:
                c.ok("same")
    c.cov.update(generators=n, accepting_states=acc, command_lines=len(scs))


def field(c, j, u, want, lab):
    outs = j.sc.outcomes(u, j.state(u, FIELD))
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        ok = o.st.copy()
        if j.ip.assume(ok, j.ip.icmp("eq", o.val, ONE), True):
            n += 1
            v = j.ip.reify(ok, j.sc.cur(ok, "field"))
            og = origin(v)
            if j.binary and want == "random":
                # taken from the tables
                c.obligation("input" not in og, "field/source", u.name, "the field is read from the input although a random one was asked for (%s)" % lab, ok.path(), lab)
            elif j.binary:
                rd = any(x.op == "call" and x.a[0] in READ for f in ok.facts for x in atoms(f))
                c.obligation(rd and "random" not in og, "field/source", u.name, "the field is not read from the input (%s)" % lab, ok.path(), lab)
            elif want == "random":
                c.obligation(og == {"random"}, "field/source", u.name, "the field should be random but comes from %s (%s)" % ("/".join(og) or "nowhere", lab), ok.path(), lab)
            else:
                r = j.entered(ok, v)
                c.obligation(r is True, "field/input", u.name, "the field is not the prime that was entered: %s (%s)" % (r, lab), ok.path(), lab)
        elif want == "input":
            refused(c, j, u, "field", o, lab)
    return n


def seeds(c, m, o, rnd, seed, lab, done):
    if seed == 0:
        o = dict(o, seed=0)
    sc = Scenario(m, **o)
    hooks(sc.ip)
    sc.abstract()
    j = J(c, sc, o)
    want = ("random" if rnd else "input") if seed == 0 else "option"
    for u in sc.units(SEED):
        key = (u.name, SEED, want)
        if key in done:
            c.ok("same")
            continue
        st0 = j.state(u, SEED)
        if want == "option" and not sc.ip.assume(st0, sc.ip.icmp("eq", sc.cfg(st0, "seed"), ZERO), False):
            continue
        done.add(key)

        def get(st):
            s = sc.cur(st, "seed")
            if s.op not in ("H",):
                return None
            vs = [v for (b, o_), v in st.mem.items() if b is s and o_ is not None]
            t = mk("seedparts", *sorted(vs, key=lambda x: x.id))
            # memory reached from the parts
            todo, seen = [t], set()
            while todo:
                for x in atoms(todo.pop()):
                    if x.op in ("H", "A") and x not in seen and x is not s:
                        seen.add(x)
                        todo += [v for (b, o_), v in st.mem.items() if b is x]
            return mk("seedparts", t, *[v for (b, o_), v in st.mem.items() if b in seen])
        source(c, j, u, SEED, want, lab, get)


if __name__ == "__main__":
    main("P12", __doc__, rule)
