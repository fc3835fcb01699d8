"""time_limits: a time limit bounds exactly the generation steps.

The generation engine is interpreted for every short sequence of verdicts and timeouts, with and without a time limit, as a client of the
timer protocol: a timer is created (for the running thread, with the signal the program handles), set once to exactly the limit, and deleted.
At every generator call of a limited run the timer runs and the handler, interpreted from that very state, jumps back into the engine; at
checks, unrolls, retries and when the engine returns no timer is left and the handler, whatever alarm still arrives, jumps nowhere."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from absint import *

SIGALRM, THREAD_ID, RESETHAND = 14, 4, 0x80000000
LIVE, SET, JMP, N = (mk("G", "#" + x) for x in ("timer", "set", "target", "calls"))


def rule(c):
    m = load_module()
    f = m.fn("exhaustive_gen_retry")
    c.require(f is not None, "the generation engine (exhaustive_gen_retry) is missing")
    bad, cnt = {}, {}
    und = []

    def err(key, i, msg, st):
        bad.setdefault(key, (i.loc() if i is not None else f.dname, msg, st.path()))

    def hit(key):
        cnt[key] = cnt.get(key, 0) + 1

    # ---- the handler of the alarm signal
    handlers, flags = [], []

    def sigaction(ip, v, st, uid, i):
        if v[0].op == "i" and v[0].a[0] == SIGALRM and v[1] is not ZERO:
            h = ip.load(st, v[1])
            fl = ip.load(st, ptradd(v[1], 136), 4)
            if h.op == "F":
                handlers.append((h, i, st))
                if fl.op == "i":
                    flags.append((fl.a[0], i, st))
        return [Outcome("ret", ZERO, st)]
    names = set()
    for g in m.repo_fns():
        for x in g.calls():
            n = m.cname(x) or ""
            if n in ("sigaction", "signal"):
                names.add((g.name, n))
    for g, n in sorted(names):
        ip = Interp(m)
        ip.hooks["sigaction"] = sigaction

        def signal_(ip, v, st, uid, i):
            if v[0].op == "i" and v[0].a[0] == SIGALRM and v[1].op == "F":
                handlers.append((v[1], i, st))
            return [Outcome("ret", ZERO, st)]
        ip.hooks["signal"] = signal_
        try:
            fn = m.fns[g]
            ip.run(fn, [mk("sym", "arg", k) for k in range(len(fn.args))] if hasattr(fn, "args") else [], State())
        except AnalysisError as e:
            und.append(str(e)[:120])
    H = sorted({h for h, i, st in handlers}, key=str)
    for fl, i, st in flags:
        if fl & RESETHAND:
            err("handler", i, "the handler of the alarm is removed when the first alarm arrives: the next one ends the program", st)
    ip = Interp(m)
    ip.max_steps, ip.max_paths = 30000000, 400000
    ip.unroll, ip.force_unroll = 14, True
    curve, setup = mk("sym", "curve"), mk("sym", "setup")
    T = {n: mk("ld", ptradd(setup, m.off("exhaustive_t", n))) for n in ("generators", "validators", "unrolls")}
    cfg = mk("H", ("cfg", 0, (), ()), "calloc")
    limit = [0, 0, 0]

    def alarm(ip, st, i):
        """what the handler does in this state: the set of jumps it may take (target, value) and whether it may return"""
        res = set()
        for h in H:
            ip2 = Interp(m)

            def jump(ip, v, s, uid, i):
                res.add((v[0], v[1] if len(v) > 1 else None))
                return [Outcome("exit", None, s)]
            for n in ("siglongjmp", "longjmp", "_longjmp", "__longjmp_chk"):
                ip2.hooks[n] = jump
            ip2.hooks["sigprocmask"] = ip2.hooks["pthread_sigmask"] = lambda ip, v, s, uid, i: [Outcome("ret", ZERO, s)]
            hf = m.fns.get(h.a[0])
            s = st.copy()
            for o in ip2.run(hf, [I(SIGALRM), mk("sym", "info"), mk("sym", "context")], s):
                if o.kind == "ret":
                    res.add("ret")
        return res

    def quiet(ip, st, i, where):
        hit("outside")
        if ip.load(st, LIVE) is ONE:
            err("outside", i, "the timer of a step is still running %s (limit %d)" % (where, limit[0]), st)
        if H:
            hit("handler-outside")
            if any(x != "ret" for x in alarm(ip, st, i)):
                err("handler-outside", i, "an alarm that arrives %s jumps into a step that is over (limit %d)" % (where, limit[0]), st)

    def indirect(ip, fn, v, st, uid, i):
        tab = next((n for n, t in T.items() if fn.op == "ld" and any(x is t for x in atoms(fn.a[0]))), None)
        if tab == "generators" and len(v) == 3:
            n = ip.load(st, N).a[0]
            if n >= limit[1]:
                return []
            ip.store(st, N, I(n + 1))
            if limit[0]:
                hit("limited")
                if ip.load(st, LIVE) is ZERO or ip.load(st, SET) is ZERO:
                    err("limited", i, "a step is generated without a running timer although a limit of %d s is set" % limit[0], st)
                else:
                    t = ip.load(st, JMP)
                    js = alarm(ip, st, i) if H else set()
                    hit("jump")
                    if H and "ret" in js:
                        err("jump", i, "the alarm of a step's timer may be ignored: the step is never interrupted", st)
                    for x in js:
                        if x != "ret":
                            if x[0] is not t:
                                err("jump", i, "the alarm of a step's timer jumps to a place that was not marked for this step", st)
            else:
                hit("unlimited")
                if ip.load(st, LIVE) is ONE:
                    err("unlimited", i, "a timer runs during a step although no limit is set", st)
            k = v[2].a[0] if v[2].op == "i" else 0
            out = []
            for r in [1, 0] + [-x for x in range(1, k - limit[2] + 1)]:
                out.append(Outcome("ret", I(r), st.copy()))
            return out
        quiet(ip, st, i, "while a step is unrolled" if tab == "unrolls" else "while a check runs")
        if tab == "unrolls":
            return [Outcome("ret", I(-1), st)]
        return [Outcome("ret", I(r), st.copy()) for r in (1, 0, -1)]

    def setjmp(ip, v, st, uid, i):
        ip.store(st, JMP, v[0])
        if not limit[0] or ip.load(st, N).a[0] >= limit[1]:
            return [Outcome("ret", ZERO, st)]
        s2 = st.copy()
        ip.store(s2, N, ip.add(ip.load(s2, N), ONE))
        s2.note(i, "the step times out")
        if ip.load(s2, LIVE) is ZERO:       # the timer is created after the point is marked: it exists when the jump comes back
            ip.store(s2, LIVE, mk("sym", "maybe"))
        js = {x[1] for x in alarm(ip, st, i) if x != "ret" and x[1] is not None}
        j = next(iter(js)) if len(js) == 1 else ONE
        if j is ZERO:
            j = ONE
        hit("mask")
        if len(v) > 1 and v[1] is ZERO and not unblocks():
            err("mask", i, "after a step timed out the alarm stays blocked, so that no later step times out", st)
        return [Outcome("ret", ZERO, st), Outcome("ret", j, s2)]

    memo = []

    def unblocks():
        """does the handler unblock the alarm itself?"""
        if not memo:
            ok = [False]

            def mask(ip, v, s, uid, i):
                if v[0].op == "i" and v[0].a[0] in (1, 2):
                    ok[0] = True
                return [Outcome("ret", ZERO, s)]
            for h in H:
                ip2 = Interp(m)
                ip2.hooks["sigprocmask"] = ip2.hooks["pthread_sigmask"] = mask
                for n in ("siglongjmp", "longjmp"):
                    ip2.hooks[n] = lambda ip, v, s, uid, i: [Outcome("exit", None, s)]
                ip2.run(m.fns.get(h.a[0]), [I(SIGALRM), mk("sym", "a"), mk("sym", "b")], State())
            memo.append(ok[0])
        return memo[0]

    def create(ip, v, st, uid, i):
        hit("create")
        if ip.load(st, LIVE) is ONE:
            err("create", i, "a timer is created while the one of an earlier step is still there: timers pile up", st)
        ev = v[1]
        if ev is ZERO:
            err("create", i, "the timer notifies the process, not the thread that generates", st)
        else:
            sig, how = ip.load(st, ptradd(ev, 8), 4), ip.load(st, ptradd(ev, 12), 4)
            tid = ip.load(st, ptradd(ev, 16), 4)
            if sig.op == "i" and sig.a[0] != SIGALRM:
                err("create", i, "the timer sends signal %d, which nothing handles" % sig.a[0], st)
            if how.op == "i" and how.a[0] != THREAD_ID:
                err("create", i, "the timer does not notify the thread that generates (sigev_notify %d)" % how.a[0], st)
            if how.op == "i" and how.a[0] == THREAD_ID and tid.op == "i":
                err("create", i, "the timer notifies thread %d, not the one that generates" % tid.a[0], st)
        if not limit[0]:
            err("unlimited", i, "a timer is created although no limit is set", st)
        ip.store(st, LIVE, ONE)
        ip.store(st, SET, ZERO)
        ip.store(st, mk("G", "#id"), v[2])
        return [Outcome("ret", ZERO, st)]

    def settime(ip, v, st, uid, i):
        hit("settime")
        s = v[2]
        x = [ip.load(st, ptradd(s, 8 * k)) for k in range(4)]
        if all(y.op == "i" for y in x):
            x = [y.a[0] for y in x]
            if x[0] or x[1]:
                err("settime", i, "the timer repeats every %d s %d ns: it fires again after the step it belongs to" % (x[0], x[1]), st)
            if x[2] != limit[0] or x[3]:
                err("settime", i, "the timer is set to %d s %d ns, the limit is %d s" % (x[2], x[3], limit[0]), st)
        if v[1].op == "i" and v[1].a[0]:
            err("settime", i, "the limit is taken as a point in time instead of a duration", st)
        ip.store(st, SET, ONE)
        return [Outcome("ret", ZERO, st)]

    def delete(ip, v, st, uid, i):
        hit("delete")
        if ip.load(st, LIVE) is ZERO:
            err("delete", i, "a timer is deleted that does not exist", st)
        ip.store(st, LIVE, ZERO)
        return [Outcome("ret", ZERO, st)]
    ip.hooks.update({"@indirect": indirect, "timer_create": create, "timer_settime": settime, "timer_delete": delete})
    for n in ("_setjmp", "__sigsetjmp", "sigsetjmp", "setjmp"):
        ip.hooks[n] = setjmp
    nret = 0
    deep = c.tier == "thorough"
    for lim in (0, 1, 7, 100000):
        for start, end, n in ((0, 2, 5), (1, 3, 4)) + (((0, 3, 6), (2, 4, 6)) if deep else ()):
            for checked in (None, start, end - 1):
                for retry in (0, 2):
                    for unrolls in (False, True):
                        limit[:] = [lim, n, start]
                        st = State()
                        for g, v in ((LIVE, ZERO), (SET, ZERO), (N, ZERO), (JMP, mk("sym", "none"))):
                            ip.store(st, g, v)
                        for gname, g in m.globals.items():       # the program's own variables that are zero when it starts
                            if g["const"] or g.get("decl"):
                                continue
                            if all(x[2][0] == "null" or x[2][0] == "i" and x[2][-1] == 0 for x in g.get("init") or []):
                                st.zero[mk("G", gname)] = True
                            if g.get("tls") and g.get("ty") == "ptr":    # what the thread sets up for itself before it generates
                                ip.store(st, mk("G", gname), mk("H", ("thread's " + gname, 0, (), ()), "calloc"))
                        ip.store(st, mk("G", "cfg"), cfg)
                        for o in ("verbose",):
                            ip.store(st, ptradd(cfg, m.off("config_t", o)), ZERO)
                        ip.store(st, ptradd(cfg, m.off("config_t", "timeout")), I(lim))
                        for o in ("gen_argss", "check_argss"):
                            ip.store(st, ptradd(setup, m.off("exhaustive_t", o)), ZERO)
                        if not unrolls:
                            ip.store(st, ptradd(setup, m.off("exhaustive_t", "unrolls")), ZERO)
                        va, ck = (mk("H", ("engine", k, (), ()), "calloc") for k in (1, 2))
                        ip.store(st, ptradd(setup, m.off("exhaustive_t", "validators")), va)
                        for k in range(9):
                            ip.store(st, ptradd(va, 8 * k), ck if k == checked else ZERO)
                        ip.store(st, ptradd(ck, m.off("check_t", "nchecks")), ONE)
                        ip.steps = 0
                        try:
                            outs = ip.run(f, [curve, setup, I(start), I(end), I(retry)], st)
                        except AnalysisError as e:
                            und.append(str(e)[:120])
                            continue
                        for o in outs:
                            if o.kind == "ret":
                                nret += 1
                                quiet(ip, o.st, o.ins, "after generation ended")
    for k in ("limited", "unlimited", "jump", "outside", "handler-outside", "handler", "create", "settime", "delete", "mask"):
        if k in bad:
            c.bad(k, *bad[k])
        elif cnt.get(k) or k == "handler" and H:
            c.ok(k, "%d states" % cnt.get(k, len(H)))
    c.cov.update(states=cnt, handlers=[h.a[0] for h in H], returns=nret, undecided=len(und), undecided_why=sorted(set(und))[:5],
                 functions_analysed=len(ip.analysed))


if __name__ == "__main__":
    main("P22", __doc__.split("\n\n")[1].replace("\n", " "), rule)
