"""exit-status: main() returns 0 only for a complete, written result.

Over every path of the resolved program from main(): (1) outside the invalid-curve method, a zero status is returned only when
at least the requested count was written, and no curve is written beyond it (linear loop invariants relate the emission counter to cfg->count);
(2) a zero status is returned only when the error indicator of the result stream was tested, after the last write, and found
clear; (3) a curve generation that reports failure (exhaustive_gen() == 0) never lets that curve be written."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import output_framing as of
from output_framing import *

METHOD_INVALID = None


def rule(c):
    sites = {"gen": 0, "ferror": 0, "emit": 0}
    bad, many = {}, {}

    def setup(a):
        ip = a.ip
        box.extend((ip, a.m))

        def isout(ip, st, t):
            return t is ip.load(st, mk("G", "out")) or of.stream_of(ip, t) in ("out", "stdout")

        def ferror(ip, vals, st, uid, i):
            if not isout(ip, st, vals[0]):
                return [Outcome("ret", mk("call", "ferror", uid), st)]
            sites["ferror"] += 1
            s2 = st.copy()
            t = mk("call", "ferror", uid)
            ip.assume(s2, ip.icmp("eq", t, ZERO), False)
            s2.prop = s2.prop.split("+")[0] + "+werr"
            st.prop = st.prop.split("+")[0] + ("+werr" if "+werr" in st.prop else "+ok")
            s2.note(i, "the result stream has an error")
            return [Outcome("ret", ZERO, st), Outcome("ret", t, s2)]
        ip.hooks["ferror"] = ferror

        def gen(ip, vals, st, uid, i):
            # the engine's verdict on this curve
            sites["gen"] += 1
            s2 = st.copy()
            t = mk("call", "gen", uid)
            ip.assume(s2, ip.icmp("eq", t, ZERO), False)
            cur = vals[0]
            ip.store(st, mk("G", "#failed"), cur)
            ip.store(s2, mk("G", "#failed"), ZERO)
            return [Outcome("ret", ZERO, st), Outcome("ret", t, s2)]
        ip.hooks["exhaustive_gen"] = gen

        def output_o(ip, vals, st, uid, i):
            f = ip.load(st, mk("G", "#failed"))
            isinv = ip.decide(st, ip.icmp("eq", mk("ld", ptradd(mk("G", "cfg_s"), a.m.off("config_t", "method"))), I(a.m.enums["METHOD_INVALID"])))
            if isinv is not True:
                sites["emit"] += 1
                cnt = mk("ld", ptradd(mk("G", "cfg_s"), a.m.off("config_t", "count")))
                if ip.decide(st, ip.icmp("ult", ip.load(st, CNT), cnt)) is not True:
                    many.setdefault(i.fn.dname, (i.loc(), pretty(ip.load(st, CNT)), st.path()))
            if f is vals[0] and f.op == "H":
                bad.setdefault(i.fn.dname, (i.loc(), st.path()))
            return None
        ip.hooks["output_o"] = output_o
        mainf = a.m.fn("main")
        ip.merge = lambda fn: fn is not mainf
        ip.joinkey = complete
    done = mk("G", "#complete")

    def complete(o):
        """does this outcome entail that at least cfg->count curves were written?  (monotone: remembered across joins)"""
        ip, m = box
        if ip.load(o.st, done) is ONE:
            return True
        d = ip.lin(ip.load(o.st, CNT))
        ip.lin(mk("ld", ptradd(mk("G", "cfg_s"), m.off("config_t", "count"))), -1, d)
        if ip.ge0(o.st, d):
            ip.store(o.st, done, ONE)
            return True
        ip.store(o.st, done, ZERO)
        return False
    box = []
    a, outs = analyse(c, setup)
    m, ip = a.m, a.ip
    c.require(sites["gen"], "main() never asks the generation engine for a curve")
    method = mk("ld", ptradd(mk("G", "cfg_s"), m.off("config_t", "method")))
    count = mk("ld", ptradd(mk("G", "cfg_s"), m.off("config_t", "count")))
    inv = m.enums.get("METHOD_INVALID")
    n = 0
    for fn, (loc, path) in bad.items():
        c.bad("failed-curve-written:" + fn, loc, "%s() writes a curve whose generation failed" % fn, path)
    for fn, (loc, t, path) in many.items():
        c.bad("too-many:" + fn, loc, "%s() can write a curve although the requested count may already be reached (written so far: %s)" % (fn, t), path)
    if not many:
        c.ok("not-too-many", "every curve is written with fewer than cfg->count written before it (%d abstract calls)" % sites["emit"])
    if not bad:
        c.ok("failed-curve-not-written", "no curve is written after exhaustive_gen() returned 0 for it (%d calls)" % sites["gen"])
    for o in outs:
        if o.kind != "ret" or o.val is None:
            continue
        v = ip.conc(o.st, o.val)
        if ip.decide(o.st, ip.icmp("eq", v, ZERO)) is False:
            continue
        n += 1
        loc = o.ins.loc() if o.ins else "main"
        isinv = ip.decide(o.st, ip.icmp("eq", method, I(inv)))
        emitted = ip.load(o.st, CNT)
        if isinv is not True:
            # statuses outside the invalid method
            lo = complete(o)
            c.obligation(lo, "status0-too-few", loc, "main() can return 0 after writing fewer curves than requested "
                         "(written: %s, requested: %s)" % (pretty(emitted), pretty(count)), o.st.path(), "written >= count")
        c.obligation(o.st.prop.endswith("+ok"), "status0-write-error", loc,
                     "main() can return 0 although a write to the result stream failed or was never checked (state %s)" % o.st.prop, o.st.path(),
                     "ferror(out) tested clear")
    c.require(n > 0, "main() never returns 0")
    c.cov.update(functions_analysed=len(ip.analysed), abstract_paths=len(outs), loops=ip.loopcount, zero_returns=n,
                 engine_call_sites=sites["gen"], stream_error_tests=sites["ferror"], steps=ip.steps)


if __name__ == "__main__":
    main("P02", __doc__.split("\n\n")[1].replace("\n", " "), rule)
