"""In-memory form of the JSON that tool/irx writes: functions, blocks, instructions, CFG helpers."""
import json, re


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unsupported construct). Exit 2."""


class Inst:
    __slots__ = ("id", "op", "ty", "a", "b", "i", "x", "fn_", "f")

    def __init__(self, d, b, i, f):
        self.id = d["id"]; self.op = d["op"]; self.ty = d["ty"]
        self.a = d.get("a", []); self.b = b; self.i = i; self.x = d; self.f = f

    @property
    def callee(self):
        return self.x.get("dem", "") if self.op in ("call", "invoke") else ""

    def loc(self):
        d = self.x.get("d")
        return self.f.m.locs[d] if d is not None else None

    def where(self):
        """innermost position inside the project's headers (or the driver), plus the call chain"""
        c = self.loc()
        if not c:
            return self.f.name
        best = None
        for (file, line, fn) in c:
            if "/src/include/" in file or file.endswith("driver.cpp"):
                best = (file, line, fn); break
        if best is None:
            best = c[0]
        file, line, fn = best
        return "%s:%d (%s)" % (file.split("/repo/")[-1], line, fn or self.f.name)

    def chain(self):
        c = self.loc() or []
        return ["%s:%d %s" % (x[0].split("/repo/")[-1], x[1], x[2]) for x in c]

    def infn(self, name):
        """is this instruction's code written in (expanded from) function `name`?"""
        c = self.loc() or []
        return any(x[2] == name for x in c)

    def __repr__(self):
        return "<%s %%%d %s>" % (self.op, self.id, self.where())


class Fn:
    def __init__(self, m, key, d):
        self.m = m; self.key = key; self.name = d["name"]; self.dem = d["dem"]; self.d = d
        self.args = d["args"]; self.aty = d.get("aty", []); self.ret = d["ret"]; self.proj = d["proj"]
        self.blocks = []
        self.inst = {}
        self._live = None
        if d.get("body"):
            for b, ins in enumerate(d["blocks"]):
                L = [Inst(x, b, i, self) for i, x in enumerate(ins)]
                self.blocks.append(L)
                for x in L:
                    self.inst[x.id] = x
            self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for b, ins in enumerate(self.blocks):
            t = ins[-1]
            if t.op == "br":
                s = list(t.x["t"])
            elif t.op == "switch":
                s = [c[1] for c in t.x["cases"]] + [t.x["def"]]
            elif t.op == "invoke":
                s = [t.x["to"], t.x["unw"]]
            else:
                s = []
            self.succ[b] = list(dict.fromkeys(s))
        # reachable, rpo
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        self.rpo = order
        self.rpon = {b: i for i, b in enumerate(order)}
        self.pred = [[] for _ in range(n)]
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.headers = set()
        # back edges by DFS
        color = {}
        st = [(0, iter(self.succ[0]))]; color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s not in color:
                    color[s] = 1; st.append((s, iter(self.succ[s]))); break
                elif color[s] == 1:
                    self.headers.add(s)
            else:
                color[b] = 2; st.pop()

    def domset(self, h):
        """blocks other than h that every path from the entry reaches through h"""
        if not hasattr(self, "_dom"): self._dom = {}
        if h not in self._dom:
            seen = {0} if h != 0 else set(); w = list(seen)
            while w:
                for s in self.succ[w.pop()]:
                    if s != h and s not in seen: seen.add(s); w.append(s)
            self._dom[h] = set(self.rpo) - seen - {h}
        return self._dom[h]

    def uses(self, v, out):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == "i":
                out.add(v[1])
            else:
                for x in v:
                    if isinstance(x, list):
                        self.uses(x, out)

    def operands(self, ins):
        out = set()
        for v in ins.a:
            self.uses(v, out)
        for st in ins.x.get("path", []):
            self.uses(st, out)
        if "ind" in ins.x:
            self.uses(ins.x["ind"], out)
        return out

    @property
    def live_in(self):
        """live SSA values at block entry (phi defs of the block excluded, they are defined there)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]  # block -> pred -> set
        for b in self.rpo:
            for x in self.blocks[b]:
                if x.op == "phi":
                    for (p, v) in x.x["inc"]:
                        s = set(); self.uses(v, s)
                        phiuse[b].setdefault(p, set()).update(s)
                else:
                    for u in self.operands(x):
                        if u not in deff[b]:
                            use[b].add(u)
                deff[b].add(x.id)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                    out |= phiuse[s].get(b, set())
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new; ch = True
        # values used as phi operands in successors must stay live to the end of the block: handled above
        self._live = live
        return live

    def calls(self, rx=None):
        for b in self.rpo:
            for x in self.blocks[b]:
                if x.op in ("call", "invoke") and (rx is None or re.search(rx, x.callee)):
                    yield x

    def insts(self):
        for b in self.rpo:
            for x in self.blocks[b]:
                yield x


class Module:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.locs = d["locs"]; self.globals = d["globals"]; self.enums = d["enums"]; self.structs = d["structs"]
        self.fns = {k: Fn(self, k, v) for k, v in d["functions"].items()}
        self.fld = {(q, f[0]): f for q, x in self.structs.items() for f in x["fields"]}
        self.fld0 = {q: f for q, x in self.structs.items() for f in x["fields"][:1] if f[1] == 0}
        self.inlined = d["inlined"]; self.kept = d["kept"]
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)

    def fn(self, name, body=True):
        L = [f for f in self.byname.get(name, []) if f.blocks or not body]
        if not L:
            raise AnalysisError("anchor vanished: no function %s in the analysed program" % name)
        return L[0]

    def fns_rx(self, rx):
        return [f for f in self.fns.values() if f.blocks and re.search(rx, f.name)]

    def enum(self, name):
        """value of an enumerator of any project enum"""
        for e, d in self.enums.items():
            if name in d and (e.startswith("FNLog") or e == ""):
                return d[name]
        raise AnalysisError("anchor vanished: enumerator %s" % name)

    def enum_type(self, name):
        for e, d in self.enums.items():
            if e == name or e == "FNLog::" + name:
                return d
        raise AnalysisError("anchor vanished: enumeration %s" % name)

    def struct(self, name):
        if name not in self.structs:
            raise AnalysisError("anchor vanished: struct %s" % name)
        return self.structs[name]

    def field_size(self, struct, field):
        for (n, off, sz, *_) in self.struct(struct)["fields"]:
            if n == field:
                return sz
        raise AnalysisError("anchor vanished: field %s::%s" % (struct, field))

    def field_off(self, struct, field):
        for (n, off, sz, *_) in self.struct(struct)["fields"]:
            if n == field:
                return off
        raise AnalysisError("anchor vanished: field %s::%s" % (struct, field))
