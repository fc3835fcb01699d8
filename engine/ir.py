"""Loading of the dumped LLVM module: functions, blocks, loops, globals, debug-info struct layouts."""
import json, os


class Ins:
    __slots__ = ("id", "op", "ty", "o", "l", "fl", "d", "fn", "bb", "idx")

    def __init__(self, j):
        self.id = j.get("id")
        self.op = j["op"]
        self.ty = j.get("ty")
        self.o = j.get("o")
        self.l = j.get("l", 0)
        self.fl = j.get("fl")
        self.d = j

    def loc(self):
        return "%s:%d" % (self.fl or "?", self.l)


class Fn:
    def __init__(self, j):
        self.name = j["name"]
        self.dname = j.get("dname") or j["name"]
        self.decl = j["decl"]
        self.file = j.get("file", "")
        self.line = j.get("line", 0)
        self.noreturn = j["noreturn"]
        self.args = j["args"]
        self.ret = j["ret"]
        self.dty = j.get("dty", [])
        self.internal = j["internal"]
        self.vararg = j.get("vararg")
        self.blocks = [[Ins(i) for i in b] for b in j["blocks"]]
        for bi, b in enumerate(self.blocks):
            for k, i in enumerate(b):
                i.fn = self
                i.bb = bi
                i.idx = k
        self._loops = None
        self._dbg = None

    @property
    def repo(self):
        return not self.decl and not self.file.startswith("/usr")

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return list(t.d["succ"])
        if t.op == "switch":
            return [t.d["def"]] + [c[1] for c in t.d["cases"]]
        return []

    def instrs(self):
        for b in self.blocks:
            yield from b

    def calls(self):
        for i in self.instrs():
            if i.op == "call":
                yield i

    def varname(self, vid):
        if self._dbg is None:
            self._dbg = {}
            for i in self.instrs():
                if i.op == "dbg" and i.d["d"][2][0] == "v":
                    self._dbg.setdefault(i.d["d"][2][1], i.d["d"][1])
        return self._dbg.get(vid)

    # natural loops: header -> set of body blocks
    def loops(self):
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        # reachable + rpo
        seen, order = set(), []
        st = [(0, iter(succ[0]))] if n else []
        if n:
            seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0} if n else {}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        self.irreducible = False
        for b in rpo:
            for s in succ[b]:
                if pos[s] <= pos[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        wl = [b]
                        while wl:
                            x = wl.pop()
                            if x in body or x not in seen:
                                continue
                            body.add(x)
                            wl.extend(pred[x])
                    else:
                        self.irreducible = True
        self._loops = loops
        self.pred = pred
        self.reach = seen
        return loops


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = {f["name"]: Fn(f) for f in j["functions"]}
        self.globals = {g["name"]: g for g in j["globals"]}
        self.types = j["types"]
        self.enums = dict(j["enumerators"])
        for e in j["enums"].values():
            self.enums.update(e)
        self.by_dname = {}
        for f in self.fns.values():
            if not f.decl:
                self.by_dname.setdefault(f.dname, []).append(f)
        self._off = {}

    def cname(self, i):
        """source name of a call's direct callee (None for an indirect call)"""
        c = i.d.get("callee")
        if i.op != "call" or c[0] != "f":
            return None
        f = self.fns.get(c[1])
        return f.dname if f else c[1]

    def repo_fns(self):
        return [f for f in self.fns.values() if f.repo]

    def fn(self, dname):
        """The repo function with this source name (None when absent)."""
        c = [f for f in self.by_dname.get(dname, []) if f.repo]
        return c[0] if c else None

    def off(self, ty, member):
        k = (ty, member)
        if k not in self._off:
            for o, sz, nm, _ in self.types[ty]["members"]:
                self._off[(ty, nm)] = o
        return self._off[k]

    def field_at(self, ty, off):
        best = None
        for o, sz, nm, t in self.types.get(ty, {}).get("members", []):
            if o == off:
                best = nm
        return best

    def gstring(self, name):
        """C string stored in a constant global."""
        g = self.globals.get(name)
        if not g or not g.get("init"):
            return "" if g is not None and "init" in g else None
        b = bytearray(max(g["size"], 0))
        for off, sz, v in g["init"]:
            if v[0] == "s":
                d = bytes.fromhex(v[1])
                b[off:off + len(d)] = d
            else:
                return None
        return bytes(b).split(b"\0")[0].decode("latin1")
