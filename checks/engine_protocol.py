"""engine-protocol: the generation engine accepts a curve only when every stage and every check succeeded.

Abstract interpretation of exhaustive_gen_retry() for a symbolic setup (any generators, checks, arguments, any start/end stage)
with a ghost V = "all stages below V hold their final, checked value".  Obligations at every indirect call of a
generator: its stage is <= V (no stage is skipped), it gets this curve, its own argument and its own stage number, and no
generator is called after a fatal verdict; at every nonzero return V >= end.  V advances past a stage only when the generator succeeded
and either the stage has no validator or all nchecks checks of it passed; a rejection by -k moves V back by k.
Loop invariants (V >= state, state >= start) are inferred and checked inductively."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from absint import *

INT_MIN = -(1 << 31)
V, N, S, ACC = mk("G", "#V"), mk("G", "#passed"), mk("G", "#stage"), mk("G", "#genok")


def rule(c):
    m = load_module()
    ip = Interp(m)
    curve, setup = mk("sym", "curve"), mk("sym", "setup")
    start, end, retry = mk("sym", "start"), mk("sym", "end"), mk("sym", "retry")
    of = lambda n: m.off("exhaustive_t", n)
    arr = {n: mk("ld", ptradd(setup, of(n))) for n in ("generators", "validators", "gen_argss", "check_argss", "unrolls")}
    sites = {"generator": set(), "check": set(), "unroll": set()}
    errs = {}

    def err(key, i, msg, st):
        errs.setdefault(key, (i.loc(), msg, st.path()))

    def stage_of(addr, base):
        """index of the element of the stage table `base` at addr, or None"""
        d = ip.lin(addr)
        ip.lin(base, -1, d)
        d = {k: v for k, v in d.items() if v}
        if addr is not base and not any(base in atoms(x) for x in (addr,)):
            return None
        if any(v % 8 for v in d.values()):
            return None
        return {k: v // 8 for k, v in d.items() if v}

    def same(st, d, t, k=0):
        d = dict(d)
        ip.lin(t, -1, d)
        return not any(v for v in d.values())

    def lit(d):
        r = I(d.get(None, 0))
        for k, v in d.items():
            if k is not None:
                r = ip.add(r, ip.binop("mul", k, I(v), 64))
        return r

    def elem(st, name, d):
        """the value of table[name][stage]"""
        b = arr[name]
        idx = [(k, 8 * v) for k, v in d.items() if k is not None]
        return mk("ld", ptridx(b, idx, 8 * d.get(None, 0)))

    def accepted(st):
        """has the pending stage's validator (if any) passed completely?"""
        if ip.load(st, ACC) is not ONE:
            return False
        s = ip.load(st, S)
        v = arr["validators"]
        if ip.decide(st, ip.icmp("eq", v, ZERO)) is True:
            return True
        e = elem(st, "validators", ip.lin(s))
        if ip.decide(st, ip.icmp("eq", e, ZERO)) is True:
            return True
        n = mk("ld", ptradd(e, m.off("check_t", "nchecks")))
        d = ip.lin(ip.load(st, N))
        ip.lin(n, -1, d)
        return ip.ge0(st, d, 1)

    def settle(st):
        """fold an accepted pending stage into V"""
        if accepted(st):
            s = ip.load(st, S)
            d = ip.lin(ip.load(st, V))
            ip.lin(s, -1, d)
            if ip.ge0(st, d, 1):
                ip.store(st, V, ip.add(s, ONE))
                ip.store(st, ACC, ZERO)

    def reject(st, s, r, i):
        """stage s was rejected with r <= 0"""
        out = []
        sf = st.copy()
        if ip.assume(sf, ip.icmp("eq", r, I(INT_MIN)), True):
            sf.prop = "fatal"
            sf.note(i, "fatal verdict")
            out.append(sf)
        if not ip.assume(st, ip.icmp("eq", r, I(INT_MIN)), False):
            return out
        t = ip.add(s, r, 32)
        ip.store(st, ACC, ZERO)
        s3 = st.copy()
        if ip.assume(s3, ip.icmp("slt", t, ZERO), True):
            ip.store(s3, V, start)
            out.append(s3)
        if not ip.assume(st, ip.icmp("slt", t, ZERO), False):
            return out
        s2 = st.copy()
        if ip.assume(s2, ip.icmp("ult", t, start), True):
            ip.store(s2, V, start)
            out.append(s2)
        if ip.assume(st, ip.icmp("ult", t, start), False):
            ip.store(st, V, t)
            out.append(st)
        for x in out:
            x.note(i, "stage rejected")
        return out

    def indirect(ip, f, vals, st, uid, i):
        addr = f.a[0] if f.op == "ld" else None
        if addr is None:
            err("unknown-target", i, "calls through a pointer that is not part of the setup", st)
            return [Outcome("ret", mk("call", "@x", uid), st)]
        for nm in ("generators", "unrolls"):
            d = stage_of(addr, arr[nm])
            if d is None:
                continue
            if nm == "unrolls":
                sites["unroll"].add(i.id)
                r = mk("call", "unroll", uid)
                ip.assume(st, ip.icmp("slt", r, ZERO), True)
                return [Outcome("ret", r, st)]
            sites["generator"].add(i.id)
            settle(st)
            s = ip.conc(st, lit(d))
            g = dict(ip.lin(ip.load(st, V)))
            ip.lin(s, -1, g)
            if st.prop == "fatal":
                err("generator-after-fatal", i, "a generator is called again after a stage reported that it can never succeed", st)
            if not ip.ge0(st, g, 1):
                err("stage-skipped", i, "a generator can be called although an earlier stage is not successfully generated and checked "
                    "(stage %s, valid below %s)" % (pretty(s), pretty(ip.load(st, V))), st)
            e = elem(st, "gen_argss", d)
            for k, (want, nm2) in enumerate(((curve, "the curve"), (e, "the stage's own argument"), (s, "its own stage number"))):
                if k >= len(vals):
                    continue
                got = ip.conc(st, vals[k])
                null = k == 1 and got is ZERO and ip.decide(st, ip.icmp("eq", arr["gen_argss"], ZERO)) is True
                ok = got is want or null or (k == 2 and same(st, ip.lin(got), s))
                if not ok and k == 1 and got is ZERO:
                    ok = ip.decide(st, ip.icmp("eq", want, ZERO)) is True
                if not ok:
                    err("generator-arg%d" % k, i, "a generator is not given %s (%s)" % (nm2, pretty(vals[k])), st)
            # the stage (and everything above it) is being redone
            ip.store(st, V, s)
            ip.store(st, S, s)
            ip.store(st, N, ZERO)
            ip.store(st, ACC, ZERO)
            r = mk("call", "generator", uid)
            ip.assume(st, ip.icmp("slt", r, I(2)), True)
            s1 = st.copy()
            out = []
            if ip.assume(s1, ip.icmp("slt", ZERO, r), True):
                ip.store(s1, ACC, ONE)
                out.append(s1)
            if ip.assume(st, ip.icmp("slt", ZERO, r), False):
                out += reject(st, s, r, i)
            return [Outcome("ret", r, x) for x in out]
        # a check: checks pointer loaded from a validator of the pending stage
        s = ip.load(st, S)
        own = mk("ld", ptradd(elem(st, "validators", ip.lin(s)), m.off("check_t", "checks"))) if s.op != "ld" else None
        d = stage_of(addr, own) if own is not None else None
        r = mk("call", "check", uid)
        sites["check"].add(i.id)
        good = d is not None and same(st, d, ip.load(st, N))
        if vals and ip.conc(st, vals[0]) is not curve:
            err("check-curve", i, "a check is not given the curve", st)
        e = elem(st, "check_argss", ip.lin(s)) if s.op != "ld" else None
        if len(vals) > 1 and e is not None:
            got = ip.conc(st, vals[1])
            if not (got is e or got is ZERO and (ip.decide(st, ip.icmp("eq", arr["check_argss"], ZERO)) is True or
                                                 ip.decide(st, ip.icmp("eq", e, ZERO)) is True)):
                err("check-arg", i, "a check is not given its stage's own argument (%s)" % pretty(vals[1]), st)
        s1 = st.copy()
        out = []
        if ip.assume(s1, ip.icmp("slt", ZERO, r), True):
            if good:
                ip.store(s1, N, ip.add(ip.load(s1, N), ONE))
            out.append(s1)
        if ip.assume(st, ip.icmp("slt", ZERO, r), False):
            out += reject(st, s, r, i)
        return [Outcome("ret", r, x) for x in out]

    def setjmp(ip, vals, st, uid, i):
        out = [Outcome("ret", ZERO, st)]
        for j in jumps:
            s2 = st.copy()
            if j.op != "i":
                ip.assume(s2, ip.icmp("eq", j, ZERO), False)
            ip.store(s2, V, start)
            ip.store(s2, ACC, ZERO)
            s2.note(i, "the stage timed out")
            out.append(Outcome("ret", j, s2))
        return out
    # the values the program passes to (sig)longjmp; longjmp(.., 0) makes setjmp return 1
    jumps = []
    for f in m.repo_fns():
        for x in f.calls():
            if (m.cname(x) or "").endswith("longjmp"):
                v = x.o[1]
                j = I(v[2] or 1) if v[0] == "i" else mk("sym", "jmp", f.name, x.id)
                if j not in jumps:
                    jumps.append(j)
    ip.hooks["@indirect"] = indirect
    for n in ("_setjmp", "__sigsetjmp", "sigsetjmp", "setjmp"):
        ip.hooks[n] = setjmp
    ip.linear_decide = True
    ip.relghosts = (V,)
    ip.on_backedge = lambda ip, le, st, ph, tag: settle(st)

    st = State()
    st.prop = "run"
    for t in (start, end):
        st.iv[t] = (0, m.enums["OFFSET_END"])
    st.iv[retry] = (0, INF)
    ip.store(st, V, start)
    ip.store(st, N, ZERO)
    ip.store(st, S, mk("ld", mk("G", "#none")))
    ip.store(st, ACC, ZERO)
    f = m.fn("exhaustive_gen_retry")
    c.require(f is not None, "the generation engine (exhaustive_gen_retry) is missing")
    outs = ip.run(f, [curve, setup, start, end, retry], st)
    c.require(sites["generator"], "the engine calls no generator of the setup")
    nret = 0
    for o in outs:
        if o.kind != "ret":
            continue
        v = ip.conc(o.st, o.val)
        if v is ZERO or ip.decide(o.st, ip.icmp("eq", v, ZERO)) is True:
            continue
        nret += 1
        settle(o.st)
        d = ip.lin(ip.load(o.st, V))
        ip.lin(end, -1, d)
        if o.st.prop == "fatal":
            err("success-after-fatal", o.ins, "the engine can report success after a stage reported that it can never succeed", o.st)
        elif not ip.ge0(o.st, d, 1):
            err("success-too-early", o.ins, "the engine can report success although a stage below the requested end is not generated and checked "
                "(valid below %s)" % pretty(ip.load(o.st, V)), o.st)
    c.require(nret, "the engine never succeeds")
    for k in ("generator-after-fatal", "stage-skipped", "generator-arg0", "generator-arg1", "generator-arg2", "check-curve", "check-arg",
              "unknown-target", "success-after-fatal", "success-too-early"):
        if k in errs:
            c.bad(k, *errs[k])
        else:
            c.ok(k, {"stage-skipped": "V >= stage at %d generator call site(s)" % len(sites["generator"]),
                     "success-too-early": "V >= end at %d abstract success return(s)" % nret}.get(k, ""))
    c.cov.update(functions_analysed=len(ip.analysed), generator_call_sites=len(sites["generator"]), check_call_sites=len(sites["check"]),
                 abstract_returns=len(outs), loops=ip.loopcount, steps=ip.steps)
    c.assume.append("generators report 1, or a value <= 0 (decided separately by stage-contract)")


if __name__ == "__main__":
    main("P03", __doc__.split("\n\n")[1].replace("\n", " "), rule)
