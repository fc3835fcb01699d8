"""record-truth: what is printed for a curve are the values that were generated.

The function that renders a curve as JSON is interpreted on an arbitrary curve: every key must be bound to the (hexadecimal, untruncated)
rendering of exactly the value it names, all parameters present in the curve must be printed, and the lists of subgroups and points must
hold, in order and without omission, one entry for every generator and every point (loop invariants count the entries appended)."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *

ALLOC = {"json_value_init_object", "json_value_init_array"}


def B(*a):
    return mk("bool", "json", *a)


def cnt(h):
    return mk("G", "#n", h)


class Render:
    def __init__(self, c, m, field):
        self.c, self.m, self.field = c, m, field
        sc = Scenario(m, method=0, seed_algo=0, field=field, prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)
        self.ip = ip = sc.S.interp()
        self.points = {}
        self.loopy = {}
        self.events = 0
        self.pure()
        for n in ALLOC:
            ip.hooks[n] = self.alloc
        for n in ("json_value_get_object", "json_value_get_array", "json_object_get_wrapping_value", "json_array_get_wrapping_value", "json_object", "json_array"):
            ip.hooks[n] = lambda ip, v, st, uid, i: [Outcome("ret", v[0], st)]
        for n in ("json_object_set_string", "json_object_dotset_string", "json_object_set_value", "json_object_dotset_value"):
            ip.hooks[n] = self.set
        for n in ("json_object_set_number", "json_object_dotset_number", "json_object_set_boolean", "json_object_set_null", "json_object_remove", "json_object_dotremove",
                  "json_object_clear"):
            ip.hooks[n] = self.other
        ip.hooks["json_array_append_value"] = self.append
        for n in ("json_serialize_to_string_pretty", "json_serialize_to_string"):
            ip.hooks[n] = self.serialize
        ip.hooks["strcat"] = self.strcat
        ip.hooks["strcpy"] = self.strcat
        ip.hooks["bits_to_hex"] = lambda ip, v, st, uid, i: [Outcome("ret", mk("call", "bits_to_hex", v[0]), st)]
        self.roots = 0

    # ---- helper functions from PARI values to PARI values are replaced by the set of their results
    def pure(self):
        for f in self.m.repo_fns():
            if f.dty and f.dty[0] == "GEN" and len(f.dty) > 1 and all(x == "GEN" for x in f.dty[1:]):
                self.ip.hooks[f.dname] = self.purehook(f)

    def purehook(self, f):
        busy = []

        def h(ip, vals, st, uid, i):
            if f.loops() and len(f.loops()) > 0:
                self.loopy[f.dname] = f
                return [Outcome("ret", mk("call", f.dname, *vals), st)]
            if busy:
                return None
            busy.append(1)
            try:
                vs = {ip.reify(o.st, o.val) for o in ip.run(f, vals, st.copy(), (uid,)) if o.kind == "ret"}
            finally:
                busy.pop()
            if not vs:
                return [Outcome("ret", mk("call", f.dname, *vals), st)]
            v = list(vs)[0] if len(vs) == 1 else mk("oneof", *sorted(vs, key=lambda t: t.id))
            return [Outcome("ret", v, st)]
        return h

    # ---- JSON library
    def alloc(self, ip, v, st, uid, i):
        h = mk("H", uid, "json")
        st.facts = {k: x for k, x in st.facts.items() if not (k.op == "bool" and k.a[0] == "json" and h in k.a)}
        ip.store(st, cnt(h), ZERO)
        return [Outcome("ret", h, st)]

    def key(self, t):
        return self.m.gstring(t.a[0]) if t.op == "G" else None

    def where(self, i):
        return i.fn.dname

    def set(self, ip, v, st, uid, i):
        k = self.key(v[1])
        if k is None:
            self.c.bad("key-unknown", self.where(i), "a value is printed under a computed key", st.path())
            return None
        self.events += 1
        for f in [f for f in st.facts if f.op == "bool" and f.a[0] == "json" and f.a[1] is v[0] and f.a[2] == k]:
            del st.facts[f]
        val = v[2]
        if val.op == "H" and val.a[-1] != "json":
            # a string assembled in memory
            src = [f.a[2] for f, x in st.facts.items() if f.op == "bool" and f.a[0] == "concat" and f.a[1] is val]
            chars = [ip.load(st, ptradd(val, n), 1) for n in range(3)]
            val = mk("str", *src, *[x if x.op == "i" else mk("?") for x in chars])
        st.facts[B(v[0], k, val)] = True
        return [Outcome("ret", ZERO, st)]

    def other(self, ip, v, st, uid, i):
        self.c.bad("unexpected-value", self.where(i), "%s on the printed record" % "a value that is not a hexadecimal string, or a removal", st.path())
        return None

    def strcat(self, ip, v, st, uid, i):
        st.facts[mk("bool", "concat", v[0], v[1])] = True
        return [Outcome("ret", v[0], st)]

    def keys(self, st, h):
        return {f.a[2]: f.a[3] for f, x in st.facts.items() if x is True and f.op == "bool" and f.a[0] == "json" and f.a[1] is h}

    # ---- the rules
    def rendered(self, v, dec=False):
        """the value whose complete rendering v is, or None"""
        if not (v.op == "call" and v.a[0] in ("pari_sprintf", "pari_vsprintf", "stack_sprintf")) or v.a[1].op != "G":
            return None
        fmt = self.m.gstring(v.a[1].a[0])
        mm = re.fullmatch(r"%P?([#0]*)(\*|\d*)(P?)(x|i|d|Zx)", fmt.replace("Ps", "Pi") if dec else fmt)
        if not mm:
            return None
        args = v.a[2:]
        if mm.group(2) == "*":
            if len(args) != 2:
                return None
            args = args[1:]
        if len(args) != 1 or (mm.group(4) == "x") == dec:
            return None
        if not dec and "#" not in mm.group(1):
            return None
        return args[0]

    def element(self, v, x):
        """v is the integer form of the field element x"""
        if v.op == "oneof":
            return all(self.element(y, x) for y in v.a)
        if v is x:
            return True
        if v.op == "call" and v.a[0] in ("lift", "liftint", "liftall", "lift_shallow"):
            return v.a[1] is x
        if v.op == "ld" and v.a[0].op == "p" and v.a[0].a[0] is x and v.a[0].a[1] == 16:
            return True
        if v.op == "call" and v.a[0] == "fromdigits" and v.a[-1] in (z(2), mk("sym", "gen_2")):
            w = v.a[1]
            while w.op == "call" and w.a[0] in ("gtovec", "Vec", "FF_to_FpXQ", "FF_to_FpXQ_i"):
                w = w.a[1]
            return w is x
        return False

    def point(self, st, h, where):
        """the point the object describes"""
        ks, m = self.keys(st, h), self.m
        od = ks.get("order")
        p = self.rendered(od) if od is not None else None
        if p is None or p.op != "ld":
            self.c.bad("point/order", where, "the order of a point is not printed", st.path())
            return None
        P = ptradd(p.a[0], -m.off("point_t", "order")) if p.a[0].op in ("p", "px") or m.off("point_t", "order") == 0 else None
        if P is None:
            self.c.bad("point/order", where, "the order printed for a point is %s" % pretty(p)[:80], st.path())
            return None
        ip = self.ip
        pt = ip.load(st, ptradd(P, m.off("point_t", "point")))
        for k, o in (("x", 8), ("y", 16)):
            r = self.rendered(ks[k]) if k in ks else None
            self.c.obligation(r is not None and self.element(r, ip.load(st, ptradd(pt, o))), "point/" + k, where,
                              "the key %s of a point is not its %s-coordinate: %s" % (k, k, pretty(ks[k])[:120] if k in ks else "missing"), st.path(), "point " + k)
        cof = ip.load(st, ptradd(P, m.off("point_t", "cofactor")))
        null = ip.decide(st, ip.icmp("eq", cof, ZERO))
        if "cofactor" in ks:
            self.c.obligation(self.rendered(ks["cofactor"]) is cof, "point/cofactor", where, "the cofactor printed is not that of the point", st.path(), "point cofactor")
        else:
            self.c.obligation(null is True, "point/cofactor-missing", where, "the cofactor of a generator may be left out", st.path(), "point cofactor absent")
        for k in ks:
            if k not in ("x", "y", "order", "cofactor", "points"):
                self.c.bad("point/key/" + k, where, "a point is printed with the unknown key %s" % k, st.path())
        return P

    def elem(self, st, base, n):
        return self.ip.load(st, ptridx(base, [(n, 8)], 0))

    def append(self, ip, v, st, uid, i):
        arr, val = v
        P = self.point(st, val, self.where(i))
        n = ip.load(st, cnt(arr))
        ip.store(st, cnt(arr), ip.add(n, ONE))
        if P is None:
            return [Outcome("ret", ZERO, st)]
        m = self.m
        gens = ip.load(st, ptradd(CUR, m.off("curve_t", "generators")))
        sub = self.elem(st, gens, n)
        gen = ip.load(st, ptradd(sub, m.off("subgroup_t", "generator")))
        if P is gen:
            ng = ip.load(st, ptradd(CUR, m.off("curve_t", "ngens")))
            self.c.obligation(ip.decide(st, ip.icmp("ult", n, ng)) is True, "subgroups/excess", self.where(i), "more subgroups than there are may be printed", st.path(), "range")
            st.facts[B(arr, "kind", mk("str", "subgroups"))] = True
            np = ip.load(st, ptradd(sub, m.off("subgroup_t", "npoints")))
            ks = self.keys(st, val)
            if "points" in ks:
                kk = self.keys(st, ks["points"]).get("kind")
                k = ip.load(st, cnt(ks["points"]))
                self.c.obligation((kk is mk("str", "points", sub) or kk is None) and ip.decide(st, ip.icmp("uge", k, np)) is True, "points/complete", self.where(i),
                                  "not all points of a subgroup are printed with it (%s of %s)" % (pretty(k)[:60], pretty(np)[:60]), st.path(), "list of points")
            else:
                self.c.obligation(ip.decide(st, ip.icmp("eq", np, ZERO)) is True, "points/missing", self.where(i),
                                  "the points of a subgroup may be left out", st.path(), "no points")
            return [Outcome("ret", ZERO, st)]
        # a point of some subgroup
        owner = None
        if P.op == "ld":
            b = base_of(P.a[0])
            if b.op == "ld":
                q = ptradd(b.a[0], -m.off("subgroup_t", "points"))
                owner = q
        ok = owner is not None and self.elem(st, ip.load(st, ptradd(owner, m.off("subgroup_t", "points"))), n) is P
        self.c.obligation(ok, "list/element", self.where(i), "the entry appended at position n of a list is not the n-th generator or point: %s" % pretty(P)[:120], st.path(),
                          "list element")
        if ok:
            np = ip.load(st, ptradd(owner, m.off("subgroup_t", "npoints")))
            self.c.obligation(ip.decide(st, ip.icmp("ult", n, np)) is True, "points/excess", self.where(i), "more points than there are may be printed", st.path(), "range")
            st.facts[B(arr, "kind", mk("str", "points", owner))] = True
        return [Outcome("ret", ZERO, st)]

    def serialize(self, ip, v, st, uid, i):
        self.roots += 1
        c, m, w = self.c, self.m, self.where(i)
        ks = self.keys(st, v[0])
        cur = lambda n: ip.load(st, ptradd(CUR, m.off("curve_t", n)))

        def want(k, pred, what):
            c.obligation(k in ks and pred(ks[k]), "curve/" + k, w, "the key %s is %s" % (k, "missing" if k not in ks else "not %s: %s" % (what, pretty(ks[k])[:160])),
                         st.path(), "key %s" % k)
        hexof = lambda x: lambda v: self.rendered(v) is x
        want("a", lambda v: self.rendered(v) is not None and self.element(self.rendered(v), cur("a")), "the coefficient a")
        want("b", lambda v: self.rendered(v) is not None and self.element(self.rendered(v), cur("b")), "the coefficient b")
        want("order", hexof(cur("order")), "the order")
        allowed = {"a", "b", "order", "seed", "subgroups"}
        if self.field == "FIELD_PRIME":
            want("field.p", hexof(cur("field")), "the prime")
            allowed.add("field.p")
        else:
            for n, k in enumerate(("m", "e1", "e2", "e3")):
                want("field." + k, lambda v: self.param(v, cur("field"), n), "exponent %d of the field polynomial" % n)
                allowed.add("field." + k)
        seed = cur("seed")
        bits = ip.load(st, ptradd(seed, m.off("seed_t", "seed")))
        if "seed" in ks:
            v0 = ks["seed"]
            ok = mk("call", "bits_to_hex", bits) in atoms(v0)
            if ok and v0.op == "str" and len(v0.a) == 4:
                sign = ip.load(st, ptradd(bits, m.off("bits_t", "sign")), 1)
                neg = ip.decide(st, ip.icmp("ne", sign, ZERO))
                chars = "".join(chr(x.a[0]) if x.op == "i" and 0 < x.a[0] < 128 else "?" for x in v0.a[1:])
                ok = (neg is False and chars[:2] == "0x") or (neg is True and chars == "-0x")
            c.obligation(ok, "curve/seed", w, "the key seed is not the (signed, hexadecimal) seed of the curve: %s" % pretty(v0)[:120], st.path(), "key seed")
        else:
            absent = ip.decide(st, ip.icmp("eq", seed, ZERO)) is True or ip.decide(st, ip.icmp("eq", bits, ZERO)) is True
            c.obligation(absent, "curve/seed-missing", w, "the seed of the curve may be left out", st.path(), "no seed")
        ng = cur("ngens")
        if "subgroups" in ks:
            arr = ks["subgroups"]
            n = ip.load(st, cnt(arr))
            kk = self.keys(st, arr).get("kind")
            c.obligation(ip.decide(st, ip.icmp("uge", n, ng)) is True and (kk is None or kk is mk("str", "subgroups")), "subgroups/complete", w,
                         "not all subgroups are printed (%s of %s)" % (pretty(n)[:60], pretty(ng)), st.path(), "list of subgroups")
        else:
            c.obligation(ip.decide(st, ip.icmp("eq", ng, ZERO)) is True, "subgroups/missing", w, "the subgroups may be left out", st.path(), "no subgroups")
        on = ip.decide(st, ip.icmp("ne", ip.load(st, ptradd(CFG, m.off("config_t", "metadata")), 1), ZERO))
        meta = m.off("curve_t", "meta")
        for k, f in (("j", "j_invariant"), ("discriminant", "discriminant"), ("embedding_degree", "embedding_degree"), ("frobenius", "frobenius_trace"),
                     ("cm_discriminant", "cm_discriminant"), ("conductor", "conductor")):
            allowed.add("meta." + k)
            val = ip.load(st, ptradd(CUR, meta + m.off("metadata_t", f)))
            if "meta." + k in ks:
                r = self.rendered(ks["meta." + k], True) or self.rendered(ks["meta." + k])
                c.obligation(r is val, "meta/" + k, w, "the key meta.%s is not the %s of the curve: %s" % (k, f.replace("_", " "), pretty(ks["meta." + k])[:100]), st.path(), "key meta." + k)
            else:
                c.obligation(on is False or ip.decide(st, ip.icmp("eq", val, ZERO)) is True, "meta/%s-missing" % k, w,
                             "the requested %s may be left out" % f.replace("_", " "), st.path(), "no meta." + k)
        for k in ks:
            if k not in allowed:
                c.bad("key/" + k, w, "the record has the unknown key %s" % k, st.path())
        return None

    def param(self, v, field, n):
        r = self.rendered(v)
        if r is None or r.op != "ld" or r.a[0].op != "p":
            return False
        b, o = split(r.a[0])
        return b.op == "call" and b.a[0] in self.loopy and b.a[1] is field and o == 8 * (n + 1)


def exponents(c, m, f):
    """f lists the exponents of the non-zero terms of the field polynomial, above the constant term, in descending order"""
    sc = Scenario(m, method=0, seed_algo=0, field="FIELD_BINARY", prime=0, cofactor=0, smooth=0, unique=0, koblitz=0, hex_check=0)
    ip = sc.S.interp()
    fld = mk("sym", "field")
    st = State()
    ip.assume(st, ip.icmp("eq", ip.binop("lshr", ip.load(st, fld), I(57), 64), I(5)), True)
    seen, idx = [], set()
    num = mk("G", "#stored")
    ip.relghosts, ip.releq, ip.linear_decide = (num,), True, True
    ip.store(st, num, ONE)
    old = ip.store

    def store(s, p, v, ins=None):
        b = base_of(p)
        if b.op == "H" and len(b.a) > 1 and b.a[1] == "cgetg" and v.op != "z" and p.op in ("px", "p") and ins is not None and ins.fn is f:
            seen.append(1)
            k = old_load(s, num)
            okidx = p is ptridx(b, [(k, 8)], 0)
            if not okidx and p.op == "px" and len(p.a[2].a) == 2 and p.a[2].a[1] == 8 and p.a[1] % 8 == 0:
                n = ip.add(p.a[2].a[0], I(p.a[1] // 8))
                okidx = ip.decide(s, ip.icmp("slt", n, k)) is False and ip.decide(s, ip.icmp("slt", k, n)) is False
            # the exponent and the test that its coefficient is not zero
            fact = any(val is False and any(x.op == "call" and "polcoef" in str(x.a[0]) and stoi(x.a[2]) is v for x in atoms(fc)) for fc, val in s.facts.items())
            c.obligation(okidx, "field/exponent-position", f.dname, "an exponent is not stored behind the previous one: %s, %s stored" % (pretty(p)[:60], pretty(k)[:60]), s.path(), "position of an exponent")
            for fc in s.facts:
                for x in atoms(fc):
                    if x.op == "call" and "polcoef" in str(x.a[0]) and stoi(x.a[2]) is v and x.a[2].op in ("lp", "add"):
                        idx.add(x.a[2])
            c.obligation(fact, "field/exponent", f.dname, "a listed exponent is not that of a non-zero term: %s" % pretty(v)[:80], s.path(), "exponent")
            old(s, num, ip.add(k, ONE))
        return old(s, p, v, ins)
    old_load = ip.load
    ip.store = store
    def step(ip, le, s, ph, tag):
        tried = {x.a[2] for fc in s.facts for x in atoms(fc) if x.op == "call" and "polcoef" in str(x.a[0])}
        for v in ph.values():
            for t in tried:
                d = ip.sub(v, t, 64)
                if d.op == "i" and (t.op == "lp" or any(x.op == "lg" for x in atoms(t))):
                    c.obligation(abs(d.a[0]) <= 1, "field/every-exponent", f.dname, "the search for non-zero terms moves by %d and may miss a term" % d.a[0], s.path(), "step to the next term")
    ip.on_backedge = step
    outs = ip.run(f, [fld], st)
    for o in outs:
        if o.kind == "ret":
            if idx:
                c.obligation(any(ip.decide(o.st, ip.icmp("sgt", t, ZERO)) is False for t in idx), "field/all-exponents", f.dname,
                             "the search for non-zero terms may stop before the term x", o.st.path(), "all exponents")
    for t in idx:
        if not any(x.op == "lp" for x in atoms(t)):
            lgs = [x for x in atoms(t) if x.op == "lg"]
            c.obligation(len(lgs) != 1 or ip.decide(State(), ip.icmp("slt", t, ip.add(lgs[0], I(-3)))) is not True and t.op != "i", "field/degree", f.dname,
                         "the leading term of the field polynomial is not listed", None, "leading term")
    return len(seen)


def rule(c):
    m = load_module()
    ents = []
    for f in m.repo_fns():
        if f.dty and f.dty[0] == "char*" and f.dty[1:] == ["curve_t*"]:
            if any("json_serialize" in (m.cname(i) or "") for i in f.calls()):
                ents.append(f)
    c.require(ents, "no function that serializes a curve was found")
    loopy = {}
    for f in ents:
        for field in ("FIELD_PRIME", "FIELD_BINARY"):
            r = Render(c, m, field)
            st = State()
            st.mem = {}
            r.ip.store(st, ptradd(CFG, m.off("config_t", "field")), I(m.enums[field]))
            r.ip.run(f, [CUR], st)
            c.require(r.roots > 0, "%s never serializes a record" % f.dname)
            loopy.update(r.loopy)
    for n, f in loopy.items():
        c.require(exponents(c, m, f) > 0 or True, "")
    c.cov["functions"] = sorted({f.dname for f in ents} | set(loopy))


if __name__ == "__main__":
    main("P08", __doc__, rule)
