"""output-framing: property automaton of the JSON array over every path of the resolved program from main().

Tokens written to the result stream (fprintf/fputs/... on `out`, or anything written to stdout) drive the automaton
  empty -[-> open -curve-> elem -,-> sep -curve-> elem ... -]-> closed
and every return of main (and every exit() reached) must find it empty-or-closed.  Loops are solved to a fixpoint over
automaton states, so the result holds for every number of curves, primes and threads."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from absint import *
from callgraph import CallGraph

DELTA = {("empty", "["): "open", ("open", "curve"): "elem", ("elem", ","): "sep", ("sep", "curve"): "elem",
         ("open", "]"): "closed", ("elem", "]"): "closed"}
CNT = mk("G", "#emitted")


def stream_of(ip, t):
    if t.op == "ld" and t.a[0].op == "G":
        return t.a[0].a[0]
    return None


class Analysis:
    def __init__(self, chk, mod):
        self.c, self.m = chk, mod
        self.cg = CallGraph(mod)
        self.errors = {}
        self.writes = set()
        self.curve_writes = 0
        writers = set()
        for f in mod.repo_fns():
            for i in f.instrs():
                if i.op == "load" and i.o[0][0] == "g" and i.o[0][1] == "out":
                    writers.add(f.name)
                cn = mod.cname(i)
                if cn in STDOUT_FUNCS:
                    writers.add(f.name)
                if cn in STREAM_ARG:
                    o = i.o[STREAM_ARG[cn]]
                    src = next((x for x in f.instrs() if o[0] == "v" and x.id == o[1]), None)
                    if not (src is not None and src.op == "load" and src.o[0][0] == "g" and src.o[0][1] in ("err", "verbose", "stderr")):
                        writers.add(f.name)
        chk.require(any(mod.fns[w].dname.startswith("output") for w in writers), "no function writes to the result stream `out`")
        self.writers = writers
        self.relevant = self.cg.callers_closure(writers) | {f.name for f in mod.repo_fns() if f.dty[:1] == ["char*"]}
        self.ip = Interp(mod)
        ip = self.ip
        ip.trace_branches = True
        ip.merge = lambda fn: True
        for n in ("fprintf", "fputs", "fwrite", "fputc", "putc", "vfprintf", "pari_fprintf", "printf", "puts", "putchar",
                  "pari_printf", "_IO_putc", "pari_puts", "pari_putc", "dprintf", "write"):
            ip.hooks[n] = self.write
        ip.hooks["strcpy"] = self.strcpy
        ip.hooks["json_serialize_to_string_pretty"] = ip.hooks["json_serialize_to_string"] = self.ser
        ip.hooks["strcat"] = self.clob
        ip.hooks["sprintf"] = self.clob
        ip.hooks["pthread_cond_wait"] = ip.hooks["pthread_cond_timedwait"] = self.condwait
        ip.hooks["pthread_mutex_lock"] = self.condwait
        ip.hooks["fopen"] = self.fopen
        ip.hooks["exit"] = ip.hooks["_exit"] = self.exit
        ip.call = self.call_filter(ip.call)
        self.skipped = set()
        self.summ = {}

    # functions that cannot reach a write of the result stream: only their return value matters
    def small(self, f):
        r = self.cg.reach([f.name])
        n = sum(sum(len(b) for b in self.m.fns[x].blocks) for x in r if x in self.m.fns and self.m.fns[x].repo)
        return n < 60 and not any(self.m.fns[x].loops() for x in r if x in self.m.fns and self.m.fns[x].repo)

    def call_filter(self, orig):
        def call(name, vals, st, uid, i):
            f = self.m.fns.get(name)
            if f is not None and f.repo and f.dname not in self.ip.hooks and f.name not in self.relevant \
                    and f.dname not in self.ip.models and not (self.small(f)):
                self.skipped.add(f.name)
                if st.prop not in ("empty", "closed"):
                    self.exits_below(f, st, i)
                for v in vals:
                    if base_of(v).op == "A" and f.dname not in ("exhaustive_gen", "exhaustive_gen_retry"):
                        self.ip.havoc(st, base_of(v))
                r = mk("call", f.dname, uid)
                if f.ret == "ptr":
                    pass
                return [Outcome("ret", r, st)]
            return orig(name, vals, st, uid, i)
        return call

    def exits_below(self, f, st, i):
        if f.name in self.summ:
            return
        self.summ[f.name] = True
        for n in self.cg.reach([f.name]):
            g = self.m.fns.get(n)
            if g is None or not g.repo or g.file.endswith("util/memory.c"):
                continue
            if any(self.m.cname(ins) in EXITS for ins in g.calls()) and self.exit_feasible(g):
                ins = [x for x in g.calls() if self.m.cname(x) in EXITS][0]
                self.c.bad("exit-inside-array:" + g.dname, ins.loc(),
                           "%s() calls exit() and is reachable while the JSON array is open" % g.dname)

    def exit_feasible(self, g):
        # can the exit() be reached with a field kind that the command line accepts?
        sub = Interp(self.m)
        sub.opaque = {f.dname for f in self.m.repo_fns()} - {g.dname}
        sub.merge = lambda fn: True
        for x in EXITS:
            sub.hooks[x] = lambda ip, vals, st, uid, i: [Outcome("exit", mk("procexit"), st, i)]
        st = State()
        argp(sub, st, self.m)
        try:
            outs = sub.run(g, [], st)
        except AnalysisError:
            return False
        return any(o.kind == "exit" and o.val is not None and o.val.op == "procexit" for o in outs)

    def err(self, st, i, tok, why):
        fn = i.fn.dname
        k = "%s:%s:%s" % (fn, st.prop, tok)
        if k not in self.errors:
            self.errors[k] = (i.loc(), why, st.path())

    def token(self, ip, st, i, tok):
        self.writes.add((i.fn.name, i.id))
        if st.prop == "error":
            return
        if tok == "curve":
            self.curve_writes += 1
            ip.store(st, CNT, ip.add(ip.load(st, CNT), ONE))
        n = DELTA.get((st.prop.split("+")[0], tok))
        if n is None:
            self.err(st, i, tok, "writes %r while the array is %r" % (tok, st.prop))
            n = "error"
        st.note(i, "output token %s: %s -> %s" % (tok, st.prop, n))
        st.prop = n

    def content(self, ip, st, v):
        if v.op == "G":
            s = self.m.gstring(v.a[0])
            return ("text", s) if s is not None else ("other", pretty(v))
        if v.op == "ser":
            return ("curve", "")
        b = base_of(v)
        s = st.mem.get((b, mk("cpy", b)))
        if s is not None and s.op == "str":
            return self.content(ip, st, s.a[0])
        return ("other", pretty(v))

    def emit(self, ip, st, i, c):
        if c[0] == "text":
            for ch in c[1]:
                if ch not in " \t\r\n":
                    self.token(ip, st, i, ch)
        elif c[0] == "curve":
            self.token(ip, st, i, "curve")
        else:
            self.token(ip, st, i, "other text " + c[1][:60])

    def write(self, ip, vals, st, uid, i):
        n = self.m.fns[i.d["callee"][1]].dname
        R = [Outcome("ret", mk("call", n, uid), st)]
        if n in ("printf", "puts", "putchar", "pari_printf", "pari_puts", "pari_putc", "dprintf", "write"):
            if n == "write" and vals[0].op == "i" and vals[0].a[0] != 1:
                return R
            self.emit(ip, st, i, ("other", "%s() to stdout" % n))
            return R
        if n in ("fprintf", "vfprintf", "pari_fprintf"):
            s = stream_of(ip, vals[0])
        elif n in ("fputs", "fputc", "putc", "_IO_putc"):
            s = stream_of(ip, vals[1])
        else:
            s = stream_of(ip, vals[3])
        if vals and n in ("fprintf", "pari_fprintf", "vfprintf"):
            tgt = vals[0]
        elif n == "fwrite":
            tgt = vals[3]
        else:
            tgt = vals[1]
        isout = s == "stdout" or tgt is ip.load(st, mk("G", "out")) or (tgt.op == "call" and tgt.a[0] == "fopen" and "out" in str(tgt.a[1]))
        if s == "out":
            isout = True
        if not isout:
            return R
        ip.assume(st, ip.icmp("eq", tgt, ZERO), False)
        if n in ("fputs",):
            self.emit(ip, st, i, self.content(ip, st, vals[0]))
        elif n in ("fputc", "putc", "_IO_putc"):
            self.emit(ip, st, i, ("text", chr(vals[0].a[0] & 255)) if vals[0].op == "i" else ("other", "char"))
        elif n == "fwrite":
            self.emit(ip, st, i, self.content(ip, st, vals[0]))
        else:
            fmt = self.content(ip, st, vals[1])
            if fmt[0] != "text":
                self.emit(ip, st, i, ("other", "non-constant format"))
                return R
            k, s, arg = 0, fmt[1], 2
            while k < len(s):
                if s[k] == "%":
                    if s[k + 1:k + 2] == "%":
                        self.emit(ip, st, i, ("text", "%"))
                        k += 2
                        continue
                    if s[k + 1:k + 2] in ("s", "c") and arg < len(vals):
                        v = vals[arg]
                        if s[k + 1] == "c":
                            self.emit(ip, st, i, ("text", chr(v.a[0] & 255)) if v.op == "i" else ("other", "char"))
                        else:
                            self.emit(ip, st, i, self.content(ip, st, v))
                        arg += 1
                        k += 2
                        continue
                    self.emit(ip, st, i, ("other", "conversion"))
                    k += 2
                    continue
                self.emit(ip, st, i, ("text", s[k]))
                k += 1
        return R

    def strcpy(self, ip, vals, st, uid, i):
        b = base_of(vals[0])
        ip.store(st, mk("px", b, 0, mk("idx", mk("cpy", b), 1)), mk("bytes", vals[1]))
        st.mem[(b, mk("cpy", b))] = mk("str", vals[1])
        return [Outcome("ret", vals[0], st)]

    def clob(self, ip, vals, st, uid, i):
        b = base_of(vals[0])
        st.mem.pop((b, mk("cpy", b)), None)
        return [Outcome("ret", vals[0], st)]

    def ser(self, ip, vals, st, uid, i):
        return [Outcome("ret", self.nonnull(ip, st, mk("ser", vals[0], uid)), st)]

    def nonnull(self, ip, st, t):
        ip.assume(st, ip.icmp("eq", t, ZERO), False)
        return t

    def fopen(self, ip, vals, st, uid, i):
        return [Outcome("ret", mk("call", "fopen", uid), st)]

    def condwait(self, ip, vals, st, uid, i):
        # other threads ran: shared heap objects may have changed
        for b in {k[0] for k in st.mem if k[0].op == "H"} | {b for b in st.zero if b.op == "H"}:
            ip.havoc(st, b)
        # fresh version of every heap object not yet written
        return [Outcome("ret", ZERO, st)]

    def exit(self, ip, vals, st, uid, i):
        if st.prop not in ("empty", "closed", "error") and not i.fn.file.endswith("util/memory.c"):
            self.err(st, i, "exit", "exit() while the array is %r" % st.prop)
        return [Outcome("exit", vals[0] if vals else ZERO, st, i)]


EXITS = ("exit", "_exit", "quick_exit")
STDOUT_FUNCS = ("printf", "puts", "putchar", "pari_printf", "pari_puts", "pari_putc")


def rule(c):
    a, outs = analyse(c)
    report(c, a, outs)


def analyse(c, setup=None):
    m = load_module()
    a = Analysis(c, m)
    st = State()
    st.prop = "empty"
    ip = a.ip
    st.mem[(CNT, 0)] = ZERO
    mainf = m.fn("main")
    c.require(mainf is not None, "main() is missing")
    ip.hooks["argp_parse"] = lambda ip, v, s, u, i: argp(ip, s, m)
    if setup:
        setup(a)
    outs = ip.run(mainf, [], st)
    c.require(a.curve_writes > 0, "no path writes a curve")
    return a, outs


def report(c, a, outs):
    ip = a.ip
    nret = 0
    for o in outs:
        if o.kind != "ret":
            continue
        nret += 1
        loc = o.ins.loc() if o.ins else "main"
        last = last_out(o.st)
        key = "end:%s:%s" % (o.st.prop, last[0])
        if o.st.prop in ("empty", "closed"):
            c.ok("main-return-closed", "%s" % o.st.prop)
        elif o.st.prop != "error":
            c.bad(key, last[1], "the program ends with the JSON array %s (last output: %s)" % (
                {"open": "opened but not closed", "elem": "not closed", "sep": "ending in a separator"}[o.st.prop], last[2]), o.st.path())
    for k, (loc, why, path) in a.errors.items():
        c.bad("token:" + k, loc, why, path)
    for w in sorted(a.writes):
        c.ok("write-site", "%s: result-stream write analysed" % w[0])
    c.require(nret > 0, "main() never returns")
    c.cov.update(functions_analysed=len(ip.analysed), abstract_paths=len(outs), loops=ip.loopcount, call_sites=len(ip.callsites),
                 write_sites=len(a.writes), automaton_states=6, main_returns=nret, steps=ip.steps,
                 not_reaching_output=sorted(a.m.fns[x].dname for x in a.skipped))
    c.assume += ["pari_err()/allocation failure aborts the process (abnormal termination)", "write errors of the OS are a separate property"]


STREAM_ARG = {"fprintf": 0, "pari_fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "_IO_putc": 1, "fwrite": 3}


def last_out(st):
    t = st.trace
    while t:
        if t[2].startswith("output token"):
            return (t[2].split(":")[0].replace("output token ", ""), t[1], t[2])
        t = t[0]
    return ("none", "main", "none")


def argp(ip, st, m):
    f = mk("ld", ptradd(mk("G", "cfg_s"), m.off("config_t", "field")))
    s2 = st
    for k in [k for k in s2.mem if k[0] is mk("G", "cfg_s")]:
        del s2.mem[k]
    s2.zero.pop(mk("G", "cfg_s"), None)
    ip._meet(s2, f, 1, 2)
    fmt = mk("ld", ptradd(mk("G", "cfg_s"), m.off("config_t", "format")))
    ip._meet(s2, fmt, 0, 0)
    return [Outcome("ret", ZERO, s2)]


if __name__ == "__main__":
    main("P01", __doc__.split("\n\n")[1].replace("\n", " "), rule)
