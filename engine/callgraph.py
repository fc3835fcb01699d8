"""Call graph over the resolved program (direct calls, address-taken functions for indirect calls)."""


class CallGraph:
    def __init__(self, mod):
        self.m = mod
        self.addr = set()
        self.direct = {}
        self.indirect = {}
        for f in mod.fns.values():
            if f.decl:
                continue
            d, ind = set(), False
            for i in f.instrs():
                ops = i.o or []
                if i.op == "phi":
                    ops = [x[0] for x in ops]
                if i.op == "call":
                    c = i.d["callee"]
                    if c[0] == "f":
                        d.add(c[1])
                    elif c[0] != "asm":
                        ind = True
                for o in ops:
                    if o and o[0] == "f":
                        self.addr.add(o[1])
            self.direct[f.name] = d
            self.indirect[f.name] = ind
        for g in mod.globals.values():
            for x in g.get("init", []):
                if x[2][0] == "f":
                    self.addr.add(x[2][1])
        self.addr_repo = {n for n in self.addr if n in mod.fns and mod.fns[n].repo}

    def callees(self, n):
        r = set(self.direct.get(n, ()))
        if self.indirect.get(n):
            r |= self.addr_repo
        return r

    def reach(self, roots, stop=()):
        seen, wl = set(), list(roots)
        while wl:
            x = wl.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            wl.extend(self.callees(x))
        return seen

    def callers_closure(self, targets, indirect=True):
        rev = {}
        for n in self.direct:
            for c in (self.callees(n) if indirect else self.direct.get(n, ())):
                rev.setdefault(c, set()).add(n)
        seen, wl = set(), list(targets)
        while wl:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            wl.extend(rev.get(x, ()))
        return seen
