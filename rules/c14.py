"""C14: parsing and name expansion always end."""
import ctx
from common import *
from c13 import Text, Lexer, Conv, Section, CONV, LINES
from absint import new_state, Infeasible

EXPLANATION = ("Loop progress over the parser and the expansion of names. Every path around a loop is followed once, from the states in which the loop can be entered with everything the loop changes left open; over linear facts a measure is looked for that every path makes smaller while it is not negative: "
               "a counter, the distance of a counter or cursor from a limit or from the length of a string, or the number of places at or behind the counter where a search can still succeed (a replacement removes one; what it puts in must not hold the character searched for, or the counter must move beyond it). "
               "Loops over the text itself (lexer, sections, converters) are followed by the abstract interpretation of cursors that C13 uses, with a ghost of every counter at the head of the loop. "
               "The lexer is shown to move its cursor forward unless it is at the end; the sections rely on that and do not put it back before where they were entered. A name that is searched for and replaced is never empty where the replacement relies on it. Functions that call themselves are refused.")
RULE = "every path around a loop: 0 <= measure and measure' <= measure - 1, for one and the same measure"
ASSUMPTIONS = ["calls outside the project return", "a process id and numbers printed by snprintf hold no '$'", "std::string members do what the standard says"]



class Progress:
    """a ghost of every counter at each loop head; compared when control comes back to it"""
    def __init__(self, *a):
        super().__init__(*a); self.meas = {}; self.bodies = {}; self.seen = {}; self.names = {}
    def chk(self, c, key, ins, msg): return bool(c)       # C13's business
    def need(self, c, key, ins, msg):
        self.hit("obligations"); return self.res.check(bool(c), self.name.split("::")[-1] + "/" + key, ins.where(), msg)
    # ---- loops
    def body(self, fn, h):
        k = (fn.name, h)
        if k not in self.bodies:
            dom = fn.domset(h) | {h}; w = [b for b in fn.pred[h] if b in dom]; out = {h}
            while w:
                b = w.pop()
                if b not in out: out.add(b); w += fn.pred[b]
            self.bodies[k] = out
        return self.bodies[k]
    def gk(self, h, c):
        n = repr(c); self.names[n] = c
        return (("ghost", h), (("f", "ghost", n),))
    def ghosts(self, st):
        out = {}
        for k, v in st.mem.items():
            if k[0][0] == "ghost": out.setdefault(k[0][1], {})[self.names[k[1][0][2]]] = v[1]
        return out
    def now(self, st, c):
        v = st.env.get(c[1]) if c[0] == "phi" else st.mem.get(c[1])
        return v[1] if v is not None and v[0] == "L" else None
    def numbers(self, fn, h, st):
        out = []
        for x in fn.blocks[h]:
            if x.op != "phi": break
            if st.env.get(x.id, ("",))[0] == "L": out.append(("phi", x.id))
        for k, v in st.mem.items():
            if v[0] == "L" and k[0][0] not in ("ghost", "byte"): out.append(("mem", k))
        return out
    def pure(self, st, l):
        if isconst(l) or l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1: return l
        s = ls(self.fresh(st, "named", None, None, *self.range(st, l)))
        self.add_ge(st, ladd(s, l, -1)); self.add_ge(st, ladd(l, s, -1)); return s
    def range(self, st, l):
        a, b = self.lo(st, l), self.hi(st, l)
        return (None if a == -INF else a), (None if b == INF else b)
    def strings(self, st): return [k for k, v in st.mem.items() if k[1] and k[1][-1][:2] == ("f", "std") and v[0] == "L" and k[0][0] != "ghost"]
    def exec_block(self, fn, b, st):
        if b in fn.headers:
            for k in [k for k in st.mem if k[0] == ("ghost", b)]: del st.mem[k]
            new = {}
            for c in self.numbers(fn, b, st):
                l = self.now(st, c)
                if isconst(l) or len(l[1]) == 1: new[self.gk(b, c)] = ("L", l)
                elif c[0] == "phi": new[self.gk(b, c)] = ("L", self.pure(st, l))
            st.mem.update(new)
        return super().exec_block(fn, b, st)
    def textlen(self, st, k):
        if k == "text": return self.LT
        v = st.mem.get(k)
        return v[1] if v and v[0] == "L" else None
    def edge(self, fn, b, nb, s):
        out = []
        for nb, y in super().edge(fn, b, nb, s):
            try:
                if nb in fn.headers:
                    if nb in self.bodies.get((fn.name, nb), self.body(fn, nb)) and b in self.body(fn, nb): self.back(fn, nb, y)
            except Infeasible: continue
            for k in [k for k in y.mem if k[0][0] == "ghost" and (k[0][1] == nb or nb not in self.body(fn, k[0][1]))]: del y.mem[k]
            out.append((nb, y))
        return out
    def tops(self):
        out = [("E", self.E), ("LT", self.LT)]
        if getattr(self, "be", None): out.append(("end", self.be[1]))
        return out + [("million", lc(1 << 20))]
    def back(self, fn, h, st):
        G = self.ghosts(st).get(h, {}); cur = {c: self.now(st, c) for c in set(G)}
        P = lambda l: self.prove_ge(st, l)
        m1 = lc(-1)
        def passes(m):
            if m[0] == "down":
                x = m[1]
                if x not in cur or cur[x] is None: return False
                if x not in G: return False
                return P(ladd(ladd(G[x], cur[x], -1), m1)) and P(G[x])
            if m[0] == "top":
                x, t = m[1], dict(self.tops())[m[2]]
                return x in G and cur.get(x) is not None and P(ladd(ladd(cur[x], G[x], -1), m1)) and P(ladd(t, G[x], -1))
            if m[0] == "pair":
                x, c = m[1:]
                if x not in G or c not in G or cur.get(x) is None or cur.get(c) is None: return False
                return P(ladd(ladd(ladd(G[c], G[x], -1), ladd(cur[c], cur[x], -1), -1), m1)) and P(ladd(G[c], G[x], -1))
            if m[0] == "triple":
                x, c = m[1:]
                if x not in G or c not in G or cur.get(x) is None or cur.get(c) is None or cur[c] != G[c]: return False
                return P(ladd(ladd(cur[x], G[x], -1), m1)) and P(ladd(ladd(self.E, G[c], -1), G[x], -1))
        k = h; a = self.meas.get(k)
        if a is None:
            xs = sorted(set(cur), key=repr)
            up = [x for x in xs if x in G and cur[x] is not None and cur[x] != G[x]]
            a = [("down", x) for x in xs if x not in G or cur[x] != G[x]] + [("top", x, t) for x in up for t, _ in self.tops()] + [("pair", x, c) for x in up for c in xs if c in G and c != x] \
                + [("pair", x, c) for c in up for x in xs if x in G and c != x and x not in up] + [("triple", x, c) for x in up for c in xs if c in G and c != x]
        self.hit("ways around a loop")
        b = [m for m in a if passes(m)]
        if a and not b: self.seen[k] = (a[:6], {repr(c): (self.linstr(G[c]) if c in G else "-", self.linstr(cur[c]) if cur[c] is not None else "-") for c in list(cur)[:12]})
        self.meas[k] = b
    def key(self, st):
        fl = []
        ptrs = [(i, v[1]) for i, v in st.env.items() if v[0] == "L" and i in self.f.inst and self.f.inst[i].ty == "ptr" and v[1][1]]
        for h, G in self.ghosts(st).items():
            for c, g in G.items():
                more = lambda n: n is not None and n != g and self.prove_ge(st, ladd(ladd(n, g, -1), lc(-1)))
                if c[0] == "mem":
                    if c[1][1] and c[1][1][-1][2] == "current_": fl.append((h, c, more(self.now(st, c))))
                elif c[1] in self.f.inst and self.f.inst[c[1]].ty == "ptr": fl += [(h, c, i, more(n)) for i, n in ptrs]
        return (super().key(st), tuple(sorted(fl, key=repr)))
    def left(self):
        """loops without a measure"""
        return {h for h in self.f.headers if h in self.meas and not self.meas[h]}
    # ---- bytes of the text read again are the same
    def load_mem(self, st, ins, p):
        if p[0] == "L" and ins.ty == "i8":
            at, val = (("byte",), (("f", "byte", "at"),)), (("byte",), (("f", "byte", "val"),))
            a, b = st.mem.get(at), st.mem.get(val)
            if a and b and a[0] == b[0] == "L" and self.same(st, a[1], p[1]): return b
            v = super().load_mem(st, ins, p); st.mem[at] = ("L", p[1]); st.mem[val] = v
            return v
        return super().load_mem(st, ins, p)
    def call_preserves(self, st, ins, name, key):
        return key[0][0] in ("ghost", "byte") or super().call_preserves(st, ins, name, key)
    def forget_bytes(self, st):
        for k in [k for k in st.mem if k[0][0] == "byte"]: del st.mem[k]
    def text_write(self, st, ins, at, size): self.forget_bytes(st); super().text_write(st, ins, at, size)


def strip0(s):
    return bytes.fromhex(s).decode("latin1").split("\0")[0]
def printed(m, f):
    """the characters a number format can print"""
    if f[0] != "P" or f[1][0] != "g" or f[2]: return None
    g = m.globals.get(f[1][1])
    if not g or "init" not in g or g["init"][0] != "str": return None
    return fmt_chars(strip0(g["init"][1]))
def fmt_chars(s):
    t, n = re.subn(r"%[-+ 0#]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j)?[diuxX]", "", s)
    if "%" in t: return None
    return "".join(sorted(set(t + (" +-0123456789abcdefABCDEFxX" if n else ""))))
def returned(m, name):
    """the characters of a string a function returns that is made from constants and printed numbers only"""
    fs = [f for f in m.fns_rx("^" + re.escape(name) + "$")]
    if not fs: return None
    out = ""
    for i in fs[0].insts():
        if i.op not in ("call", "invoke") or i.callee.startswith("llvm."): continue
        c = i.callee
        for a in i.a:
            if a[0] == "g":
                g = m.globals.get(a[1])
                if not g or "init" not in g or g["init"][0] != "str": return None
                t = fmt_chars(strip0(g["init"][1])) if "printf" in c else strip0(g["init"][1])
                if t is None: return None
                out += t
        if not re.match(r"snprintf$|sprintf$|getpid$|std::.*(basic_string|allocator)", c): return None
        if "basic_string" in c and not re.search(r"basic_string$|~basic_string$|operator=$|operator\+=$|allocator$", c.split("[abi")[0].split("(")[0]): return None
    return "".join(sorted(set(out)))


PURE = ("length", "size", "empty", "at", "operator[]", "find", "substr", "c_str", "data", "back", "front", "compare", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "capacity", "operator==", "begin", "end")
FND, CUT, LAST, SOME = "fnd", "cut", "last", "some"


class Walk(Text):
    LIMIT = 40000; name_needed = False; named = lambda *a: None
    def chk(self, c, key, ins, msg): return bool(c)
    def need(self, c, key, ins, msg):
        self.hit("obligations"); return self.res.check(bool(c), self.name.split("::")[-1] + "/" + key, ins.where(), msg)
    def body(self, fn, h):
        dom = fn.domset(h) | {h}; w = [b for b in fn.pred[h] if b in dom]; out = {h}
        while w:
            b = w.pop()
            if b not in out: out.add(b); w += fn.pred[b]
        return out
    # ---- one loop
    def loops(self, fn):
        """heads of the loops for which no measure is found"""
        bad = set()
        for h in fn.headers:
            B = self.body(fn, h)
            self.at = next((i for i in fn.blocks[h] if i.op != "phi"), fn.blocks[h][0]); self.meas = None; self.count = 0; self.why = None
            self.hyp = self.low = None
            sts = self.entries(fn, h, B)
            if sts is None: sts = [self.start(fn, h, B)]; self.hyp = self.low = None
            self.hyp = self.hyp or set(); self.low = self.low or set(); self.again = True
            while self.again:
                self.again = False; self.meas = None; self.count = 0
                for e in sts:
                    e = e.copy(); self.ghosts(fn, h, B, e)
                    for st in self.signs(fn, h, e):
                        for x, k, nd in self.hyp:       # the counter stands on a hit
                            g = self.G.get(x)
                            if g is not None and self.prove_ge(st, g): self.note(st, FND, k, nd, x, g)
                            elif g is not None:
                                try: self.add_ge(st, ladd(g, lc(1)))
                                except Infeasible: break
                        else:
                            if not any(x in self.G and self.prove_ge(st, ladd(lneg(self.G[x]), lc(-1))) for x in self.low): self.work(fn, h, B, st)
                        if self.again: break
                    if self.again: break
            if self.meas is not None and not self.meas: bad.add(h)
        return bad
    def whole(self, fn):
        """the function from its entry, each loop once in an arbitrary state"""
        self.f = fn; self.count = 0; self.meas = []; st = self.blank(fn)
        self.work(fn, None, set(range(len(fn.blocks))), st)
    def blank(self, fn):
        self.f = fn; self.ibnd = getattr(self, "ibnd", {}); self.unsmemo = {}; self.alloca_size = {}; self.escaped = set(); self.stored_ptrs = {}
        st = new_state(); self.st0 = st; self.argv = self.make_args(fn, st); self.base(st); self.G = {}; self.fixed = {}; self.text_of = {}; self.hyp = getattr(self, "hyp", None); self.low = getattr(self, "low", None); self.again = False
        if self.name_needed and fn.name.endswith("::PredefinedInplace"): self.add_ge(st, ladd(self.length(st, self.argv[2]), lc(-1)))
        return st
    def entries(self, fn, h, B):
        """the ways into a loop (None: too many); what the loop changes is unknown"""
        reach = set(); w = [p for p in fn.pred[h] if p not in B]
        while w:
            b = w.pop()
            if b not in reach: reach.add(b); w += [p for p in fn.pred[b] if p not in B]
        out = []; n = 0; todo = [(0, self.blank(fn))]
        if h == 0: return None
        while todo:
            b, s = todo.pop(); n += 1
            if n > 4000 or len(out) > 12: return None
            for nb, y in self.exec_block(fn, b, s):
                if nb == h:
                    now = {(("phi", x.id), k[0][1], k[0][2]) for x in fn.blocks[h] if x.op == "phi" for k in self.lasts(y) if self.at_hit(y, (("phi", x.id), k[0][1], k[0][2]))}
                    none = {("phi", x.id) for x in fn.blocks[h] if x.op == "phi" and self.now(y, ("phi", x.id)) == lc(-1)}
                    if self.hyp is None: self.hyp = now if now or not none else None
                    else: self.hyp = {t for t in self.hyp if t in now or t[0] in none}
                    low = {("phi", x.id) for x in fn.blocks[h] if x.op == "phi" and x.ty == "i64" and (lambda v: v is not None and self.prove_ge(y, v))(self.now(y, ("phi", x.id)))}
                    self.low = low if self.low is None else self.low & low
                    self.havoc(fn, h, B, y); self.unmark(y); out.append(y); continue
                if nb not in reach: continue
                if nb in fn.headers:
                    I = self.body(fn, nb)
                    if b in I: continue
                    self.havoc(fn, nb, I, y)
                todo.append((nb, y))
        return out
    def unmark(self, st):
        for z in [z for z in st.mem if z[0][0] in (FND, CUT, LAST)]: del st.mem[z]
    def note(self, st, what, k, nd, x, p): st.mem[((what, k, nd, x), ())] = ("L", p); st.mem[((SOME, k, nd, x), ())] = ("L", ZERO)
    def lasts(self, st): return [z for z in st.mem if z[0][0] == LAST]
    def at_hit(self, st, t):
        """the counter is where the needle was found, or says that it was not"""
        x, k, nd = t; v = self.now(st, x); p = st.mem.get(((LAST, k, nd), ()))
        return v is not None and (v == lc(-1) or p is not None and self.same(st, p[1], v))
    def start(self, fn, h, B):
        st = self.blank(fn)
        # addresses known before the loop
        for b in sorted(fn.rpon, key=lambda b: fn.rpon[b]):
            if b in B: continue
            for x in fn.blocks[b]:
                if x.op == "alloca" or x.op in ("getelementptr", "gep", "bitcast") and x.a[0][0] != "i" or x.op in ("getelementptr", "gep", "bitcast") and x.a[0][1] in st.env:
                    try: self.step(st, x)
                    except Infeasible: pass
        st.mem.clear(); st.auto = None
        for x in fn.blocks[h]:
            if x.op != "phi": break
            st.env[x.id] = self.opaque(st, x, "head")
        return st
    def ghosts(self, fn, h, B, st):
        # the strings of the loop
        for b in B:
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke") and x.callee and "basic_string" in x.callee and x.a:
                    for a in x.a[:2]:
                        if a[0] == "a" or a[0] == "i" and a[1] in st.env:
                            v = self.val(st, a)
                            if v[0] == "P" and not self.is_text(v): self.length(st, v)
        self.G = {}; self.fixed = {}
        for b in B:
            for x in fn.blocks[b]:
                if x.op == "icmp":
                    for a in x.a:
                        if a[0] == "i" and fn.inst[a[1]].b in B: continue
                        v = self.val(st, a)
                        if v[0] == "P": v = ("L", self.plin(st, v))
                        if v[0] == "L": self.fixed[repr(v[1])] = v[1]
        for x in fn.blocks[h]:
            if x.op != "phi": break
            v = self.number(st, st.env[x.id])
            if v is not None: self.G[("phi", x.id)] = v
        for k, v in st.mem.items():
            if v[0] == "L": self.G[("mem", k)] = v[1]
    def signs(self, fn, h, st):
        """unsigned counters: below and above the middle of their range"""
        out = [st]
        ls_ = [st.env[x.id][1] for x in fn.blocks[h] if x.op == "phi" and x.ty == "i64" and st.env[x.id][0] == "L"][:4]
        ls_ += [l for l in self.fixed.values() if len(l[1]) == 1 and self.lo(st, l) == -(1 << 63)][:2]
        for l in ls_:
            nxt = []
            for s in out:
                z = s.copy()
                for y, f in ((s, l), (z, ladd(lneg(l), lc(-1)))):
                    try: self.add_ge(y, f); nxt.append(y)
                    except Infeasible: pass
            out = nxt
        return out
    def work(self, fn, h, B, st):
        todo = [(h or 0, st)]
        while todo:
            b, s = todo.pop()
            self.count += 1
            if self.count > self.LIMIT: raise AnalysisError("too many paths in %s" % fn.name)
            for nb, y in self.exec_block(fn, b, s):
                if nb not in B: continue
                if nb == h: self.hit("ways around a loop"); self.back(fn, h, y); continue
                if nb in fn.headers:
                    I = self.body(fn, nb)
                    if b in I: continue              # its own walk
                    self.havoc(fn, nb, I, y)
                todo.append((nb, y))
    def havoc(self, fn, nb, I, st):
        for x in fn.blocks[nb]:
            if x.op != "phi": break
            st.env[x.id] = self.opaque(st, x, "inner")
        roots = set(); all_ = False
        for b in I:
            for x in fn.blocks[b]:
                st.env.pop(x.id, None) if x.op != "phi" or b != nb else None
        for b in I:
            for x in fn.blocks[b]:
                ps = []
                if x.op == "store": ps = [x.a[1]]
                elif x.op in ("call", "invoke") and x.callee and not x.callee.startswith("llvm."):
                    meth = x.callee.split("[abi")[0].rsplit("::", 1)[-1]
                    if "basic_string" in x.callee and meth in PURE: continue
                    ps = x.a[:1] if "basic_string" in x.callee and meth in ("replace", "append", "assign", "insert", "erase", "push_back", "pop_back", "resize", "clear", "operator=", "operator+=") else list(x.a)
                elif x.op == "call" and x.callee and re.match(r"llvm\.mem(cpy|move|set)", x.callee): ps = x.a[:1]
                elif x.op in ("cmpxchg", "atomicrmw"): ps = [x.a[0]]
                elif x.op in ("call", "invoke") and not x.callee: all_ = True
                for p in ps:
                    r = self.root_of(fn, st, p)
                    if r == "any": all_ = True
                    elif r is not None: roots.add(r)
        for k in list(st.mem):
            base = k[0][1][0] if k[0][0] in (FND, CUT, LAST) else k[0]
            if k[0][0] == SOME: continue
            if all_ or base in roots: del st.mem[k]
    def root_of(self, fn, st, p):
        for _ in range(20):
            if p[0] == "a": return self.argv[p[1]][1] if self.argv[p[1]][0] == "P" else None
            if p[0] == "g": return ("g", p[1])
            if p[0] != "i": return None
            x = fn.inst[p[1]]
            if p[1] in st.env:
                v = st.env[p[1]]; return v[1] if v[0] == "P" and v[1][0] in ("al", "arg", "g") else "any" if x.ty == "ptr" else None
            if x.ty != "ptr": return None
            if x.op in ("getelementptr", "bitcast"): p = x.a[0]; continue
            if x.op == "alloca": return ("al", x.id)
            if x.op in ("call", "invoke") and "basic_string" in x.callee and x.callee.split("[abi")[0].rsplit("::", 1)[-1] in PURE: return None     # bytes of a string
            return "any"
        return "any"
    # ---- comparing
    def now(self, st, c):
        v = st.env.get(c[1]) if c[0] == "phi" else st.mem.get(c[1])
        return self.number(st, v) if v is not None else None
    def number(self, st, v): return v[1] if v[0] == "L" else self.plin(st, v) if v[0] == "P" else None
    def back(self, fn, h, st):
        G = self.G; cur = {c: self.now(st, c) for c in G}; P = lambda l: self.prove_ge(st, l); m1 = lc(-1)
        U = lambda l: l if P(l) else ladd(l, lc(1 << 64)) if P(ladd(lneg(l), m1)) else None
        def ok(m):
            if any(y not in G for y in m[1:3] if y[0] in ("phi", "mem")): return False
            if m[0] == "down":
                x = m[1]
                if cur[x] is None: return False
                return P(ladd(ladd(G[x], cur[x], -1), m1)) and P(G[x]) or ladd(cur[x], G[x], -1) == m1 and (P(ladd(G[x], m1)) or P(ladd(lneg(G[x]), m1)))
            if m[0] == "pair":
                x, c = m[1:]
                if cur[x] is None or cur[c] is None: return False
                return P(ladd(ladd(ladd(G[c], G[x], -1), ladd(cur[c], cur[x], -1), -1), m1)) and P(ladd(G[c], G[x], -1))
            if m[0] == "under":
                if cur[m[1]] is None: return False
                if P(ladd(ladd(cur[m[1]], G[m[1]], -1), m1)) and P(ladd(m[2], G[m[1]], -1)): return True
                if ladd(cur[m[1]], G[m[1]], -1) == lc(1) and P(ladd(ladd(self.uns(st, m[2], 64, self.at), self.uns(st, G[m[1]], 64, self.at), -1), m1)): return True
                a, b, c = U(G[m[1]]), U(cur[m[1]]), U(m[2])
                return None not in (a, b, c) and P(ladd(ladd(b, a, -1), m1)) and P(ladd(c, a, -1))
            if m[0] == "over":
                return cur[m[1]] is not None and P(ladd(ladd(G[m[1]], cur[m[1]], -1), m1)) and P(ladd(G[m[1]], m[2], -1))
            if m[0] == "count":
                x, k, nd = m[1:]
                if cur[x] is None: return False
                f, c = st.mem.get(((FND, k, nd, x), ())), st.mem.get(((CUT, k, nd, x), ()))
                if cur[x] == m1: return ((SOME, k, nd, x), ()) in st.mem      # nothing is left
                return c is not None and P(ladd(cur[x], c[1], -1)) or f is not None and P(ladd(ladd(cur[x], f[1], -1), m1))
        for t in list(self.hyp):
            if not self.at_hit(st, t): self.hyp.discard(t); self.again = True
        for x in list(self.low):
            if cur.get(x) is None or not P(cur[x]): self.low.discard(x); self.again = True
        if self.again: return
        if self.meas is None:
            moved = [x for x in G if cur[x] is not None and cur[x] != G[x]]
            cand = [("down", x) for x in moved] + [("pair", x, c) for x in G for c in G if c != x and (x in moved or c in moved)]
            cand += [(w, x, l) for x in moved for l in self.fixed.values() for w in ("under", "over")]
            cand += [("count", k[0][3], k[0][1], k[0][2]) for k in st.mem if k[0][0] == SOME]
        else: cand = self.meas
        self.meas = [m for m in cand if ok(m)]
        if cand and not self.meas: self.why = (cand[:4], {str(c)[:60]: (self.linstr(G[c]), self.linstr(cur[c]) if cur[c] else None) for c in G}, [k[0][0] for k in st.mem if k[0][0] in (FND, CUT)])
    # ---- searches
    def forget(self, st, k):
        for z in [z for z in st.mem if z[0][0] in (FND, CUT, LAST) and z[0][1] == k]: del st.mem[z]
    def setlen(self, st, a, l):
        if a[0] == "P": self.forget(st, self.slen(a))
        super().setlen(st, a, l)
    def string(self, st, ins, name, args):
        if name.startswith("std::") and "basic_string" in name and args and args[0][0] == "P":
            meth = name.split("[abi")[0].rsplit("::", 1)[-1]; a = args[0]; k = self.slen(a)
            if "operator==" in name: return [(st, None)]
            if meth == "find" and len(args) > 2:
                nd = self.needle(st, args[1]); frm = self.uns(st, self.lin(st, args[2]), 64, ins); out = []
                for y, v in super().string(st, ins, name, args) or [(st, None)]:
                    if nd is not None and v is not None and v[0] == "L" and not isconst(v[1]):
                        try: self.add_ge(y, ladd(v[1], frm, -1))
                        except Infeasible: continue
                        self.found(y, k, nd, frm, v[1])
                    out.append((y, v))
                return out
            if meth == "replace" and len(args) >= 4: return self.replaced(st, ins, a, k, args)
            if meth in ("c_str", "data") and a[1][0] == "al" and not self.is_text(a):
                v = self.opaque(st, ins, "text of"); self.text_of[v[1]] = a[1]; return [(st, v)]
            if meth in ("erase", "insert") and len(args) == 3 and args[1][0] == "L":
                pos = self.uns(st, self.lin(st, args[1]), 64, ins); keep = []
                for z, v in st.mem.items():
                    if z[0][0] not in (FND, CUT) or z[0][1] != k: continue
                    if meth == "erase" and args[2][0] == "L" and z[0][0] == FND and self.same(st, v[1], pos) and self.prove_ge(st, ladd(self.uns(st, self.lin(st, args[2]), 64, ins), lc(-1))): keep.append((((CUT,) + z[0][1:], ()), v))
                    if meth == "erase" and z[0][0] == CUT and z[0][2][0] == "c" and self.prove_ge(st, ladd(pos, v[1], -1)): keep.append((z, v))
                    if meth == "insert" and z[0][0] == CUT and self.prove_ge(st, ladd(pos, v[1], -1)) and self.lacks(st, args[2], z[0][2]): keep.append((z, v))
                out = super().string(st, ins, name, args)
                if out is None: self.setlen(st, a, ls(self.fresh(st, "strlen", None, ins, 0, 1 << 62))); out = [(st, a)]
                for y, v in out: y.mem.update(keep)
                return out
        return super().string(st, ins, name, args)
    def needle(self, st, v):
        if v[0] == "L": return ("c", self.lin(st, v)[0]) if isconst(self.lin(st, v)) else None
        return ("s", repr(v)) if v[0] == "P" and v[1][0] in ("arg", "g") else None
    def found(self, st, k, nd, frm, p):
        P = lambda l: self.prove_ge(st, l)
        st.mem[((LAST, k, nd), ())] = ("L", p)
        for x, g in self.G.items():
            if x[0] != "phi": continue
            f, c = ((FND, k, nd, x), ()), ((CUT, k, nd, x), ())
            if c in st.mem and P(ladd(frm, st.mem[c][1], -1)): st.mem[c] = ("L", p); continue
            if f in st.mem and P(ladd(ladd(frm, st.mem[f][1], -1), lc(-1))): del st.mem[f]; st.mem[c] = ("L", p); continue
            if c not in st.mem and f not in st.mem and P(ladd(frm, g, -1)) and st.mem.get(k) is not None and st.mem[k][1] == self.G.get(("mem", k)): self.note(st, FND, k, nd, x, p)
    def on_memop(self, st, ins, name, args, n):
        if args[0][0] != "P" or args[0][1][0] not in ("al", "arg", "g"): self.unmark(st)
        return super().on_memop(st, ins, name, args, n)
    def on_store(self, st, ins, ptr, val):
        if ptr[0] != "P" or ptr[1][0] not in ("al", "arg", "g"): self.unmark(st)      # the text of a string may change
        return super().on_store(st, ins, ptr, val)
    def replaced(self, st, ins, a, k, args):
        pos = self.uns(st, self.lin(st, args[1]), 64, ins); cnt = self.uns(st, self.lin(st, args[2]), 64, ins); n = self.length(st, a)
        s = args[3]; m = self.strlen(st, s) if s[0] == "P" and (s[1][0] == "g" or "basic_string" in ins.x.get("fn", "") or self.alloca_size.get(s[1]) in (32, None)) else None
        if m is None: m = ls(self.fresh(st, "strlen", None, ins, 0, 1 << 31))
        one = self.prove_ge(st, ladd(cnt, lc(-1))); new = []
        for z, v in list(st.mem.items()):
            if z[0][0] != FND or z[0][1] != k: continue
            nd = z[0][2]; at = v[1]
            end = pos if self.lacks(st, s, nd) else ladd(pos, m)
            if one and self.same(st, at, pos): new.append((((CUT,) + z[0][1:], ()), ("L", end)))
        cut = ls(self.fresh(st, "cut", None, ins, 0, 1 << 62)); self.add_ge(st, ladd(cnt, cut, -1)); self.add_ge(st, ladd(ladd(n, pos, -1), cut, -1))
        self.setlen(st, a, ladd(ladd(n, cut, -1), m))
        st.mem.update(new)
        return [(st, a)]
    def call_preserves(self, st, ins, name, key):
        if key[0][0] == SOME: return True
        if key[0][0] in (FND, CUT, LAST): return all(a[0] != "i" or self.root_of(self.f, st, a) != key[0][1][0] for a in ins.a) or "basic_string" in name
        return super().call_preserves(st, ins, name, key)
    def lacks(self, st, s, nd):
        """the text s does not hold the character that is looked for"""
        if nd[0] != "c" or s[0] != "P": return False
        ch = chr(nd[1] & 255)
        if s[1][0] == "g":
            g = self.m.globals.get(s[1][1]); return bool(g and "init" in g and g["init"][0] == "str" and not s[2] and ch not in strip0(g["init"][1]))
        al = dict(self.made(st)); t = al.get(self.text_of.get(s[1], s[1]))
        return t is not None and ch not in t
    # characters that a local buffer or string can hold (None: any)
    def made(self, st): return [x[1:] for x in (st.auto or ()) if x[0] == "made"]
    def make(self, st, root, t):
        s = [x for x in (st.auto or ()) if not (x[0] == "made" and x[1] == root)]
        if t is not None: s.append(("made", root, t))
        st.auto = tuple(sorted(s, key=repr))
    def on_call(self, st, ins, name, args):
        if name == "FNLog::PredefinedInplace": self.named(st, ins, args)
        if name in ("snprintf", "sprintf") and args[0][0] == "P" and args[0][1][0] == "al":
            i = 2 if name == "snprintf" else 1
            self.make(st, args[0][1], printed(self.m, args[i]))
        elif name.startswith("FNLog::") and args and args[0][0] == "P" and args[0][1][0] == "al":
            t = returned(self.m, name)
            self.make(st, args[0][1], t)
        return super().on_call(st, ins, name, args)



class Lexer14(Progress, Lexer):
    def setup(self, st):
        super().setup(st)
        self.zone_syms += (self.cur0[1][0][0],)
        self.e0 = self.memlin(st, "LexState.end_")
    def key(self, st):
        cur = self.memlin(st, "LexState.current_")
        return (super().key(st), cur is not None and cur != self.cur0 and self.prove_ge(st, ladd(ladd(cur, self.cur0, -1), lc(-1))), cur is not None and self.prove_ge(st, ladd(cur, self.e0, -1)))
    def on_ret(self, st, ins, v):
        r = self.lin(st, v)
        if not self.same(st, r, ZERO) and self.differ(st, r, ZERO): return
        cur = self.memlin(st, "LexState.current_"); self.hit("accepting exits of the lexer")
        ok = cur is not None and self.prove_ge(st, ladd(cur, self.cur0, -1)) and (self.prove_ge(st, ladd(ladd(cur, self.cur0, -1), lc(-1))) or self.prove_ge(st, ladd(cur, self.e0, -1)))
        self.need(ok, "progress", ins, "the lexer can accept a line without having moved on, before the end of the text")
class Conv14(Progress, Conv): pass
class Section14(Progress, Section):
    def setup(self, st):
        super().setup(st)
        self.entry_cur = None
        n = self.name.split("::")[-1]
        if self.at_entry and n in ("ParseDevice", "ParseChannel"):
            c = st.mem[self.fld(self.argv[0], "current_")][1]; s = c[1][0][0]
            self.ibnd[s] = st.bnd.get(s, (4096, 1 << 47)); self.zone_syms += (s,); self.entry_cur = c
    def on_call(self, st, ins, name, args):
        sub = name in ("FNLog::ParseChannel", "FNLog::ParseDevice")
        if name == "FNLog::Lex" or sub:
            g = lambda f: (lambda v: v[1] if v and v[0] == "L" else None)(st.mem.get(self.fld(args[0], f)))
            c0, e0 = g("current_"), g("end_"); keep = {k: v for k, v in st.mem.items() if k[0][0] == "ghost"}
            out = []; self.forget_bytes(st)
            for y, v in super().on_call(st, ins, name, args):
                y.mem.update(keep)
                cur = y.mem.get(self.fld(args[0], "current_")); 
                if c0 is None or cur is None or (not sub and not self.same(y, self.lin(y, v), ZERO)): out.append((y, v)); continue
                cur = cur[1]
                try: self.add_ge(y, ladd(cur, c0, -1))
                except Infeasible: continue
                if sub: out.append((y, v)); continue
                z = y.copy()
                try: self.add_ge(y, ladd(ladd(cur, c0, -1), lc(-1))); out.append((y, v))
                except Infeasible: pass
                try:
                    if e0 is not None: self.add_ge(z, ladd(cur, e0, -1))
                    out.append((z, v))
                except Infeasible: pass
            return out
        if name.startswith("FNLog::Predefined"): self.forget_bytes(st)
        return super().on_call(st, ins, name, args)
    def on_ret(self, st, ins, v):
        if self.entry_cur is not None:
            cur = st.mem.get(self.fld(self.argv[0], "current_"))
            self.need(cur and cur[0] == "L" and self.prove_ge(st, ladd(cur[1], self.entry_cur, -1)), "cursor-back", ins, "a section can leave the cursor before the place where it was entered")
def run(res, config):
    m = ctx.module(config)
    size = lambda c, f: next(z[2] for z in m.struct("FNLog::" + c)["fields"] if z[0] == f)
    tot = {}
    class Quiet:
        def __init__(s): s.bad = 0
        def check(s, c, *a): s.bad += not c; return bool(c)
    limits = {"LexState.name_len_": size("LexState", "name_") - 1, "LexState.desc_len_": size("LexState", "desc_") - 1,
              "LexState.channel_size_": size("LexState", "channels_") // m.struct("FNLog::Channel")["size"], "Channel.device_size_": size("Channel", "devices_") // m.struct("FNLog::Device")["size"]}
    def count(e):
        for k, v in e.n.items():
            if k in ("obligations", "ways around a loop", "accepting exits of the lexer", "names searched for", "paths"): tot[k] = tot.get(k, 0) + v
    def judge(f, old, always):
        """a loop ends if either way of looking at it finds a measure"""
        res.fns.add(f.name); w = Walk(m, res, f.name)
        try: bad = w.loops(f)
        except AnalysisError: bad = set(f.headers)
        count(w)
        if old and (always or bad):
            try:
                e = old(res); e.run(f); bad &= e.left(); count(e)
            except AnalysisError:
                if always: raise
        tot["loops"] = tot.get("loops", 0) + len(f.headers)
        for h in sorted(f.headers):
            ins = next((i for i in f.blocks[h] if i.op != "phi"), f.blocks[h][0])
            tot["obligations"] = tot.get("obligations", 0) + 1
            res.check(h not in bad, f.name.split("::")[-1] + "/loop", ins.where(), "a loop need not end: nothing is shown to grow smaller each time around it")
    f = m.fn("FNLog::Lex"); judge(f, lambda r: Lexer14(m, r, f.name), True)
    for f in m.fns_rx(CONV): judge(f, lambda r: Conv14(m, r, f.name), False)
    Walk.name_needed = False
    for n, text in (("PredefinedInplace", 0), ("PredefinedMacro", 1), ("PredefinedVar", 1), ("ParseLogger", 1), ("ParseChannel", None), ("ParseDevice", None), ("InitFromYMAL", None), ("HotUpdateLogger", None)):
        for f in m.fns_rx("^FNLog::%s$" % n):
            def mk(r): e = Section14(m, r, f.name, limits); e.text_arg = text; e.at_entry = n.startswith("Parse") or n in ("PredefinedMacro", "PredefinedVar"); return e
            if n == "PredefinedInplace": Walk.name_needed = bool(Walk(m, res, f.name).loops(f))
            judge(f, None if n.startswith("Predefined") else mk, n.startswith("Parse") or n in ("InitFromYMAL", "HotUpdateLogger"))
            if n in ("PredefinedMacro", "PredefinedVar") and Walk.name_needed:
                w = Walk(m, res, f.name)
                def named(st, ins, args): w.hit("names searched for"); w.need(w.prove_ge(st, ladd(w.length(st, args[2]), lc(-1))), "empty-name", ins, "an empty name can be searched for, which is found again and again")
                w.named = named; w.whole(f); count(w)
    for n in ("PreFmtName", "FmtName", "MakeFileName", "MakePathName"):
        for f in m.fns_rx("^FNLog::%s$" % n): judge(f, None, False)
    # functions that call themselves
    roots = [f.name for n in ("ParseLogger", "FmtName", "MakeFileName", "MakePathName") for f in m.fns_rx("^FNLog::%s$" % n)]
    calls = {}
    def callees(n):
        if n not in calls: calls[n] = {i.callee for f in m.fns_rx("^" + re.escape(n) + "$") for i in f.insts() if i.op in ("call", "invoke") and i.callee and i.callee.startswith("FNLog::")}
        return calls[n]
    for r in roots:
        seen = set(); w = [r]
        while w:
            n = w.pop()
            for c in callees(n):
                if c not in seen: seen.add(c); w.append(c)
        for n in seen | {r}:
            s2 = set(); w = [n]
            while w:
                for c in callees(w.pop()):
                    if c not in s2: s2.add(c); w.append(c)
            res.check(n not in s2, "recursion/" + n.split("::")[-1], n, "%s can call itself" % n); tot["obligations"] = tot.get("obligations", 0) + 1; tot["functions checked for recursion"] = tot.get("functions checked for recursion", 0) + 1
    for k in ("loops", "ways around a loop", "accepting exits of the lexer"): res.need(tot.get(k, 0), k)
