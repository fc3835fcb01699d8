"""curve-objects: copies of curves are complete and independent, and what a curve owns is released exactly once.

The copying and releasing functions that are reachable from main are interpreted on curves of every small shape (with and
without each part, up to two subgroups with up to two points, some without cofactor; copies for curves without seed, as only those are copied).
The copy must hold, part by part, a copy of the original's value and share no object with it.  After releasing in any order the
generation engine uses (unrolling stages, then freeing), every allocated block of the curve was freed once, none was
used after that, no clone was released twice, and the caller's pointer is cleared."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from stages import *
from absint import Interp, State, AnalysisError
from callgraph import CallGraph

TOP = ("field", "a", "b", "curve", "order")
PT = ("point", "order", "cofactor")


class Skip(Exception):
    pass


def value(nm):
    """a PARI value"""
    return mk("H", ("value " + nm, 0, (), ()), "value")


class Objects:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.bad = {}
        self.blocks = {}

    def fail(self, kind, i, msg, st):
        self.bad.setdefault((kind, msg), (i if isinstance(i, str) else i.loc(), st.path()))

    def new(self, name, st, size=None):
        t = mk("H", ("block " + name, 0, (), ()), "calloc")
        self.blocks[t] = name
        return t

    def interp(self):
        m = self.m
        ip = Interp(m)
        ip.trace_branches = False
        ip.unroll, ip.force_unroll, ip.unroll_decided = 12, True, 12
        ip.merge = lambda fn: False
        ip.hooks["gcopy"] = ip.hooks["gclone"] = lambda ip, v, s, u, i: self.dup(ip, v, s, u, i)
        for n in ("try_free", "free", "pari_free"):
            ip.hooks[n] = self.release
        ip.hooks["gunclone"] = ip.hooks["gunclone_deep"] = ip.hooks["guncloneNULL"] = self.unclone
        ip.hooks["obj_free"] = self.objfree
        ip.hooks["isclone"] = lambda ip, v, s, u, i: [Outcome("ret", ONE if v[0] in dict(s.prop).get("clones", ()) else ZERO, s)]
        ip.on_load = lambda ip, st, p, i: self.touch(st, p, i, "read")
        ip.on_store = lambda ip, st, p, v, i: self.touch(st, p, i, "written")
        return ip

    def touch(self, st, p, i, how):
        b = base_of(p)
        if b in dict(st.prop)["freed"]:
            self.fail("after", i, "%s is %s after it was freed" % (self.blocks.get(b, "an object"), how), st)

    def dup(self, ip, v, st, uid, i):
        return [Outcome("ret", mk("copyof", v[0], uid), st)]

    def release(self, ip, v, st, uid, i):
        p = v[0]
        if p is ZERO:
            return [Outcome("ret", mk("undef"), st)]
        d = dict(st.prop)
        if base_of(p) is not p and base_of(p).op == "H":
            self.fail("inside", i, "a pointer into the middle of %s is freed" % self.blocks.get(base_of(p), "an object"), st)
        elif p in d["freed"]:
            self.fail("twice", i, "%s is freed twice" % self.blocks.get(p, "an object"), st)
        elif p.op != "H" or p.a[1] == "value":
            self.fail("foreign", i, "%s, which is not an allocated block, is freed" % pretty(p), st)
        d["freed"] = d["freed"] | {p}
        st.prop = tuple(sorted(d.items(), key=lambda x: x[0]))
        return [Outcome("ret", mk("undef"), st)]

    def unclone(self, ip, v, st, uid, i):
        d = dict(st.prop)
        if v[0] in d["gone"]:
            self.fail("twice", i, "a clone (%s) is released twice" % pretty(v[0]), st)
        elif v[0] not in d["clones"]:
            self.fail("foreign", i, "a value that is not a clone (%s) is released as one" % pretty(v[0]), st)
        d["gone"] = d["gone"] | {v[0]}
        st.prop = tuple(sorted(d.items(), key=lambda x: x[0]))
        return [Outcome("ret", mk("undef"), st)]

    def objfree(self, ip, v, st, uid, i):
        d = dict(st.prop)
        if v[0] in d["objs"] or v[0] in d["gone"]:
            self.fail("twice", i, "the cache of an elliptic curve object is released twice, or after the object", st)
        if v[0] is ZERO:
            self.fail("foreign", i, "the cache of a missing elliptic curve object is released", st)
        d["objs"] = d["objs"] | {v[0]}
        st.prop = tuple(sorted(d.items(), key=lambda x: x[0]))
        return [Outcome("ret", mk("undef"), st)]

    # ---------------------------------------------------------------- curves of a given shape
    def curve(self, ip, shape, clones=False):
        m = self.m
        top, gens, seed = shape
        st = State()
        fz = frozenset()
        self.blocks = {}
        cl = set()
        off = m.off

        def val(nm):
            t = value(nm)
            st.mem[self.key(t, 0)] = I(-1 if clones else 0)     # the type word: PARI marks clones with a bit of it
            if clones:
                cl.add(t)
            return t
        st.prop = ()
        ip.on_load, ol = None, ip.on_load
        cv = self.new("the curve", st)
        put = lambda p, ty, nm, v: st.mem.__setitem__(self.key(p, off(ty, nm)), v)
        for nm in TOP:
            put(cv, "curve_t", nm, val(nm) if nm in top else ZERO)
        for nm in ("seed",):
            put(cv, "curve_t", nm, ZERO)
        put(cv, "curve_t", "ngens", I(len(gens or ())))
        put(cv, "curve_t", "generators", ZERO)
        for k in range(6):
            st.mem[self.key(cv, off("curve_t", "meta") + 8 * k)] = ZERO

        def point(nm, cof):
            p = self.new(nm, st)
            for q in PT:
                put(p, "point_t", q, val("%s of %s" % (q, nm)) if q != "cofactor" or cof else ZERO)
            return p
        if gens is not None:
            ga = self.new("the list of subgroups", st)
            put(cv, "curve_t", "generators", ga)
            for k, npts in enumerate(gens):
                s = self.new("subgroup %d" % k, st)
                st.mem[self.key(ga, 8 * k)] = s
                put(s, "subgroup_t", "generator", point("generator %d" % k, True))
                put(s, "subgroup_t", "npoints", I(npts or 0))
                put(s, "subgroup_t", "points", ZERO)
                if npts is not None:
                    pa = self.new("the list of points of subgroup %d" % k, st)
                    put(s, "subgroup_t", "points", pa)
                    for j in range(npts):
                        st.mem[self.key(pa, 8 * j)] = point("point %d of subgroup %d" % (j, k), False)
        if seed is not None:
            s = self.new("the seed", st)
            put(cv, "curve_t", "seed", s)
            ty = m.types["seed_t"]
            for o in range(0, ty["size"], 8):
                st.mem[self.key(s, o)] = ZERO

            def bits(nm):
                b = self.new(nm, st)
                for o in range(0, m.types["bits_t"]["size"], 8):
                    st.mem[self.key(b, o)] = ZERO
                d = self.new(nm + "'s bytes", st)
                put(b, "bits_t", "bits", d)
                return b
            put(s, "seed_t", "seed", bits("the seed's bits"))
            put(s, "seed_t", "hash20", self.new("the seed's hash", st))
            st.mem[self.key(s, off("seed_t", "type"))] = I(m.enums[seed])
            if seed.startswith("SEED_BRAINPOOL"):
                for nm in ("seed_a", "seed_b"):
                    o = self.union(s, "brainpool", nm)
                    st.mem[self.key(s, o)] = bits("the " + nm)
        ip.on_load = ol
        st.prop = tuple(sorted(dict(freed=fz, gone=fz, objs=fz, clones=frozenset(cl)).items()))
        return cv, st

    def union(self, s, u, nm):
        return self.m.off("seed_t", "%s.%s" % (u, nm))

    def key(self, b, o):
        return (b, o)


def shapes(seeds):
    for top in ((), ("field",), ("field", "a", "b"), ("field", "a", "b", "curve"), TOP):
        for gens in ((None, (None,), (0,), (1,), (2,), (None, None), (1, 2), (2, 0)) if top == TOP else (None,)):
            for s in seeds:
                yield top, gens, s


def show(sh):
    top, gens, seed = sh
    return "a curve with %s%s%s" % (", ".join(top) or "nothing", "" if gens is None else " and subgroups with %s points" % "/".join(str(g or 0) for g in gens), "" if seed is None else ", " + seed)


def copies(c, m, f):
    n = 0
    for sh in shapes((None,)):
        o = Objects(c, m)
        ip = o.interp()
        cv, st = o.curve(ip, sh)
        src = dict(st.mem)
        outs = [x for x in ip.run(f, [cv], st) if x.kind == "ret"]
        for x in outs:
            n += 1
            ip.on_load = None
            missing, shared = compare(ip, m, x.st, cv, x.val, src, "curve_t", "the curve")
            for w in missing:
                c.bad("%s/complete" % f.dname, f.dname, "a copy of %s %s" % (show(sh), w), x.st.path())
            for w in shared:
                c.bad("%s/independent" % f.dname, f.dname, "a copy of %s shares %s with it" % (show(sh), w), x.st.path())
            for k, v in src.items():
                if x.st.mem.get(k) is not v:
                    c.bad("%s/original" % f.dname, f.dname, "copying changes the original", x.st.path())
            if not missing:
                c.ok("%s/complete" % f.dname, show(sh))
            if not shared:
                c.ok("%s/independent" % f.dname, show(sh))
        for (k, msg), (where, path) in o.bad.items():
            c.bad("%s/%s" % (f.dname, k), where, msg, path)
    return n


def compare(ip, m, st, a, b, src, ty, what):
    missing, shared = [], []
    if b is ZERO or b.op != "H":
        return ["is missing %s" % what], []
    if a is b:
        return [], [what]
    off = m.off
    ld = lambda p, t, nm: ip.load(st, ptradd(p, off(t, nm)))
    vals = TOP if ty == "curve_t" else PT if ty == "point_t" else ()
    for nm in vals:
        x, y = ld(a, ty, nm), ld(b, ty, nm)
        if x is ZERO:
            if y is not ZERO:
                missing.append("has a %s of %s although there is none" % (nm, what))
        elif y is x:
            shared.append("the %s of %s" % (nm, what))
        elif not (y.op == "copyof" and y.a[0] is x):
            missing.append("has no copy of the %s of %s" % (nm, what))
    lists = ("generators", "ngens", "subgroup_t", "subgroup %d") if ty == "curve_t" else ("points", "npoints", "point_t", "point %d of " + what) if ty == "subgroup_t" else None
    if ty == "subgroup_t":
        r = compare(ip, m, st, ld(a, ty, "generator"), ld(b, ty, "generator"), src, "point_t", "generator of " + what)
        missing += r[0]
        shared += r[1]
    if lists:
        x, y = ld(a, ty, lists[0]), ld(b, ty, lists[0])
        n, k = ld(a, ty, lists[1]), ld(b, ty, lists[1])
        if x is ZERO:
            if y is not ZERO and k is not ZERO:
                missing.append("has %s of %s although there are none" % (lists[0], what))
        elif y is ZERO or k is not n:
            if n is not ZERO:
                missing.append("has not the number of %s of %s" % (lists[0], what))
        elif x is y:
            shared.append("the %s of %s" % (lists[0], what))
        else:
            for j in range(n.a[0] if n.op == "i" else 0):
                r = compare(ip, m, st, ip.load(st, ptradd(x, 8 * j)), ip.load(st, ptradd(y, 8 * j)), src, lists[2], lists[3] % j)
                missing += r[0]
                shared += r[1]
    return missing, shared


def releases(c, m, free, unrolls, seeds):
    """free: curve_free; unrolls: (stage, function) in order of the stages"""
    n = 0
    for sh in shapes(seeds):
        for clones in (False, True):
            top, gens, seed = sh
            if clones and gens and any(gens):
                pass
            seqs = {()}
            for k in range(len(unrolls)):                   # a retry unrolls the last stages, from the last down
                seqs.add(tuple(reversed(unrolls[k:])))
            seqs |= {s + s for s in seqs if s}              # twice in a row
            if top != TOP:
                seqs = {()} | {s for s in seqs}
            for seq in sorted(seqs, key=lambda s: (len(s), str(s))):
                o = Objects(c, m)
                ip = o.interp()
                cv, st = o.curve(ip, sh, clones)
                blocks = dict(o.blocks)
                states = [st]
                for _, u in seq:
                    states = [x.st for s in states for x in ip.run(u, [cv, mk("sym", "from"), mk("sym", "to")], s) if x.kind == "ret"]
                slot = mk("H", ("slot", 0, (), ()), "calloc")
                nx = []
                for s in states:
                    s.mem[(slot, 0)] = cv
                    nx += [x.st for x in ip.run(free, [slot], s) if x.kind == "ret"]
                lab = show(sh) + (" of clones" if clones else "") + (", unrolled by %s" % ", ".join(u.dname for _, u in seq) if seq else "")
                for s in nx:
                    n += 1
                    d = dict(s.prop)
                    for b in blocks:
                        if b not in d["freed"]:
                            o.fail("leak", free.dname, "%s is never freed (%s)" % (blocks[b], lab), s)
                    if s.mem.get((slot, 0)) is not ZERO:
                        o.fail("pointer", free.dname, "the pointer to a freed curve is kept (%s)" % lab, s)
                    if "curve" in top and value("curve") not in d["objs"]:
                        o.fail("cache", free.dname, "the cache of the elliptic curve object is never released (%s)" % lab, s)
                if not nx:
                    raise Skip("releasing never ends")
                for (k, msg), (where, path) in o.bad.items():
                    c.bad("release/%s" % k, where, msg, path)
                if not o.bad:
                    c.ok("release", lab)
    return n


def rule(c):
    m = load_module()
    live = CallGraph(m).reach([m.fn("main").name])
    und = {}
    n1 = n2 = 0
    norm = lambda t: re.sub(r"const|struct| ", "", t)
    for f in m.repo_fns():
        if (f.name in live or "curve_t" in " ".join(f.dty or [])) and f.dty and [norm(x) for x in f.dty] == ["curve_t*", "curve_t*"]:
            try:
                n1 += copies(c, m, f)
            except (AnalysisError, Skip, KeyError) as e:
                und[f.dname] = "%s: %s" % (type(e).__name__, str(e)[:150])
    free = m.fn("curve_free")
    if free is not None:
        try:
            w = Wiring(m, fixed={"method": 0})
            S = Stages(m, w)
            un = {}
            for r in S.runs:
                for k in range(9):
                    for u in S.units(r, k):
                        if isinstance(u.unroll, T) and u.unroll.op == "F":
                            un[k] = m.fns[u.unroll.a[0]] if u.unroll.a[0] in m.fns else m.fn(u.unroll.a[0])
            seeds = [None] + [x for x in m.enums if x.startswith("SEED_") and x in ("SEED_ANSI", "SEED_BRAINPOOL", "SEED_BRAINPOOL_RFC", "SEED_NUMS", "SEED_FIPS")]
            n2 = releases(c, m, free, sorted(un.items()), seeds if c.tier == "thorough" else seeds)
        except (AnalysisError, Skip, KeyError) as e:
            und["curve_free"] = "%s: %s" % (type(e).__name__, str(e)[:150])
    c.cov.update(copies=n1, releases=n2, undecided=und)


import re
if __name__ == "__main__":
    main("P18", __doc__.split("\n\n", 1)[1].replace("\n", " "), rule)
