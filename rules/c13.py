"""C13: parsing stays within the text and within its own objects."""
import ctx
from common import *

EXPLANATION = ("Path-sensitive abstract interpretation of the configuration parser, function by function, over cursor positions: T = begin of the text, E = its first zero byte. Every byte read through a text pointer lies in T..E (a byte that was found not to be zero lies before E); every copy out of the text, "
               "every C conversion function and every string made from the text begins in it and ends in it; every write goes into its own array (channel and device entries below their number, paths, names, number buffers, with room for the ending zero); every position given to a std::string member is one it has; "
               "replacing a variable or macro changes bytes of the text only, where its name was found. The lexer is shown to keep: cursor within T..E, value within T..cursor, key recognised => value set; sections, converters and replacement functions are followed on that ground and must hand each other positions within the text.")
RULE = "read(p) => T <= p <= E; write(object, i, n) => i + n <= size(object); Lex: current in T..E, begin <= end <= current"
ASSUMPTIONS = ["the text is a std::string (a zero byte ends it) that only the replacement functions change", "atoi, atoll, strtoll, strtoul, inet_addr and gethostbyname read up to the first zero byte", "std::string keeps what it is given"]

PTRS = ("LexState.first_", "LexState.current_", "LexState.end_", "Line.key_begin_", "Line.key_end_", "Line.val_begin_", "Line.val_end_")
COUNTERS = ("Line.chars_", "Line.blank_", "LexState.line_no_")
CONV = re.compile(r"^FNLog::Parse(Reserve|Priority|Bool|Number|String|ChannelType|InType|OutType|AddresIP|Addres|BitArray)$")
CSTR = {"atoi", "atol", "atoll", "strtol", "strtoul", "strtoll", "strtoull", "atof", "strtod", "inet_addr", "gethostbyname", "strlen"}
TOP = (1 << 47)


class Text(Base):
    max_disjuncts = 1; rel_join = False; ids_match = False; split_join = False; join_zones = True
    def __init__(self, m, res, name):
        super().__init__(m); self.res = res; self.name = name; self.n = {}
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def chk(self, c, key, ins, msg):
        self.hit("obligations"); return self.res.check(bool(c), self.name.split("::")[-1] + "/" + key, ins.where(), msg)

    # ---- the text
    def base(self, st):
        self.T = ls(self.intern(("text", "begin"), "begin", None, 4096, TOP))
        self.E = ls(self.intern(("text", "end"), "end", None, 4096, TOP))
        self.LT = ls(self.intern(("text", "length"), "length", None, 0, TOP))
        self.zone_syms = tuple(l[1][0][0] for l in (self.T, self.E))
        self.add_ge(st, ladd(self.E, self.T, -1)); self.add_ge(st, ladd(ladd(self.T, self.LT), self.E, -1))
    # ---- distances between positions
    def edges(self, st, skip=None):
        """(x, y, w): y >= x + w; 0 stands for the constant zero"""
        out = []
        for f in st.facts:
            if f is skip or len(f[1]) != 2: continue
            (s, c), (t, d) = f[1]
            if c == 1 and d == -1: out.append((t, s, -f[0]))
            elif c == -1 and d == 1: out.append((s, t, -f[0]))
        return out
    def far(self, st, x, y, edges):
        """best known lower bound of y - x"""
        syms = {z for e in edges for z in e[:2]} | {x, y}
        syms.discard(None)
        E = list(edges)
        for s in syms:
            lo, hi = self.sbnd(st, s)
            if lo > -INF: E.append((None, s, lo))
            if hi < INF: E.append((s, None, -hi))
        best = {x: 0}
        for _ in range(len(syms) + 1):
            ch = False
            for a, b, w in E:
                v = best.get(a)
                if v is not None and v + w > best.get(b, -INF): best[b] = v + w; ch = True
            if not ch: break
        return best.get(y, -INF)
    def prove_ge(self, st, l, depth=3):
        if self.lo(st, l) >= 0: return True
        if not l[1]: return False
        if len(l[1]) == 2:
            (s, c), (t, d) = l[1]
            if c * d == -1:
                if c < 0: s, t = t, s
                if self.far(st, t, s, self.edges(st)) + l[0] >= 0: return True
                if not any(len(f[1]) > 2 and any(x in (s, t) for x, _ in f[1]) for f in st.facts): return False
        elif len(l[1]) == 1:
            s, c = l[1][0]
            if abs(c) == 1:
                if self.far(st, *((None, s) if c == 1 else (s, None)), self.edges(st)) + l[0] >= 0: return True
                if not any(len(f[1]) > 2 and any(x == s for x, _ in f[1]) for f in st.facts): return False
        return super().prove_ge(st, l, min(depth, 2))
    def blo(self, st, l):
        r = super().blo(st, l)
        return 0 if r < 0 and l[1] and self.prove_ge(st, l) else r
    def gc(self, fn, b, st):
        if super().gc(fn, b, st) is False: return False
        for f in sorted(st.facts, key=lambda f: f[0]):     # what the other distances imply is not kept
            if len(f[1]) != 2: continue
            st.facts.discard(f)
            if not self.prove_ge(st, f): st.facts.add(f)
        return True

    def trunc_keeps(self, st, ins, l, w):
        return self.prove_ge(st, ladd(lc((1 << (w - 1)) - 1), l, -1)) and self.prove_ge(st, ladd(l, lc(1 << (w - 1))))

    def inside(self, st, p): return self.prove_ge(st, ladd(p, self.T, -1)) and self.prove_ge(st, ladd(self.E, p, -1))
    def textptr(self, st, kind):
        s = self.fresh(st, kind, None, None, 4096, TOP); p = ls(s)
        self.add_ge(st, ladd(p, self.T, -1)); self.add_ge(st, ladd(self.E, p, -1)); return p
    def bytes_seen(self, st):
        for s, d in list(st.defs.items()):
            if d[0] == "uns" and d[1][0] == 0 and len(d[1][1]) == 1 and d[1][1][0][1] == 1: d = st.defs.get(d[1][1][0][0], ("",))
            if d[0] == "like":
                if self.decide(st, ("eq", ls(s))) is True: self.add_ge(st, ladd(ladd(self.E, d[1], -1), lc(-d[2])))
                continue
            if d[0] != "byte": continue
            z = self.decide(st, ("eq", ls(s)))
            if z is False: self.add_ge(st, ladd(ladd(self.E, d[1], -1), lc(-1)))
            elif z is True: self.add_ge(st, ladd(d[1], self.E, -1))
    def on_branch(self, st, ins, cond, taken):
        try: self.bytes_seen(st)
        except Infeasible: return False

    # ---- pointers into the text are numbers
    def gep(self, st, base, path):
        if base[0] == "L":
            r = base[1]
            for p in path:
                if p[0] == "f": r = ladd(r, lc(p[3]))
                elif p[0] == "x": r = ladd(r, self.lin(st, self.val(st, p[1])), p[2])
            return ("L", r)
        return super().gep(st, base, path)
    def coerce(self, st, v, ty, ins):
        if ty == "ptr" and v[0] == "L": return v
        return super().coerce(st, v, ty, ins)
    def cast(self, st, ins, op):
        if op == "trunc":
            v = self.val(st, ins.a[0]); w = bits_of(ins.ty)
            if v[0] == "L" and w > 1 and len(v[1][1]) > 1 and not (self.lo(st, v[1]) >= -(1 << (w - 1)) and self.hi(st, v[1]) < 1 << (w - 1)) and self.trunc_keeps(st, ins, v[1], w):
                s = ls(self.fresh(st, "narrow", None, ins, -(1 << (w - 1)), (1 << (w - 1)) - 1))
                self.add_ge(st, ladd(s, v[1], -1)); self.add_ge(st, ladd(v[1], s, -1))
                return ("L", s)
        if op in ("ptrtoint", "inttoptr"):
            v = self.val(st, ins.a[0])
            if v[0] == "L": return v
        return super().cast(st, ins, op)
    def load_mem(self, st, ins, p):
        if p[0] == "L":
            v = self.opaque(st, ins, "byte")
            if ins.ty == "i8" and v[0] == "L":
                st.defs[v[1][1][0][0]] = ("byte", p[1])
                if self.same(st, p[1], self.E): return ("L", ZERO)
            return v
        if ins.ty == "ptr" and p[0] == "P" and self.cls(p) in PTRS:
            k = self.memkey(p); v = st.mem.get(k)
            if v is None or v[0] not in ("L", "P"): v = ("L", self.entry(st, self.cls(p))); st.mem[k] = v
            if v == ("P", ("null",), ()): v = ("L", ZERO)
            return v
        return super().load_mem(st, ins, p)
    def entry(self, st, cls): return ls(self.fresh(st, cls, None, None, 0, TOP))
    def store_mem(self, st, p, v):
        if v == ("P", ("null",), ()) and self.cls(p) in PTRS: v = ("L", ZERO)
        if self.cls(p) in COUNTERS: st.mem.pop(self.memkey(p), None); return
        super().store_mem(st, p, v)
    def call_preserves(self, st, ins, name, key):
        return kcls(key).startswith(("LexState.", "Line.")) or key[1] and key[1][-1][:2] == ("f", "std")

    # ---- objects
    def room(self, st, p):
        """(offset into the innermost object of known size, its size, what)"""
        if p[0] != "P": return None
        steps = p[2]; i = len(steps)
        # the last field and what is indexed behind it
        j = max([k for k, s in enumerate(steps) if s[0] == "f" and not s[1].startswith("std::")], default=None)
        if j is not None:
            off = ZERO
            for s in steps[j + 1:]: off = ladd(off, lc(s[3])) if s[0] == "f" else ladd(off, s[1], s[2])
            return off, steps[j][4], steps[j][2]
        off = ladd(self.plin(st, p), self.plin(st, ("P", p[1], ())), -1)
        if p[1][0] == "al": return off, self.alloca_size.get(p[1]), "a local buffer"
        if p[1][0] == "g":
            return None
        if p[1][0] == "arg":
            t = self.f.aty[p[1][1]] if p[1][1] < len(self.f.aty) and self.f.aty[p[1][1]] else ""
            n = self.m.struct("FNLog::" + t.split("::")[-1])["size"] if "FNLog::" in t else None
            return (off, n, self.f.aty[p[1][1]]) if n else None
        return None
    def on_access(self, st, ins, p, size, write):
        if isconst(size) and size[0] == 0: return
        if p[0] == "L":
            if write: return self.text_write(st, ins, p[1], size)
            last = ladd(ladd(p[1], size), lc(-1))
            self.hit("reads of the text")
            ok = self.prove_ge(st, ladd(p[1], self.T, -1)) and self.prove_ge(st, ladd(self.E, last, -1)) and self.prove_ge(st, size)
            ok = ok or self.prove_ge(st, lneg(size)) or self.prove_ge(st, ladd(p[1], self.T, -1)) and self.prove_ge(st, ladd(ladd(self.T, self.LT), last, -1)) and self.prove_ge(st, size)
            self.chk(ok, "read", ins, "the text can be read outside its bounds (position %s, %s bytes)" % (self.linstr(p[1]), self.linstr(size)))
            return
        if p[0] != "P": return
        # every index of the path lies in its array
        steps = p[2]
        for k, s in enumerate(steps):
            if s[0] == "x" and s[3] and s[3] > 0 and not isconst(s[1]):
                self.hit("array indices")
                self.chk(self.prove_ge(st, s[1]) and self.prove_ge(st, ladd(lc(s[3] - 1), s[1], -1)), "index", ins, "an array of %d elements can be indexed outside: %s" % (s[3], self.linstr(s[1])))
        # an array of std::array: the index step stands behind the field
        for k, s in enumerate(steps):
            if s[0] == "x" and (not s[3] or s[3] < 0) and k and steps[k - 1][0] == "f" and steps[k - 1][4] and k + 1 < len(steps):
                n = steps[k - 1][4] // s[2]; self.hit("array indices")
                self.chk(self.prove_ge(st, s[1]) and self.prove_ge(st, ladd(lc(n - 1), s[1], -1)), "index", ins, "an array of %d elements can be indexed outside: %s" % (n, self.linstr(s[1])))
        r = self.room(st, p)
        if r is None: return self.other(st, ins, p, size, write)
        off, n, what = r
        if n is None or isconst(off) and isconst(size) and off[0] >= 0 and off[0] + size[0] <= n: return
        self.hit("accesses of local objects")
        ok = self.prove_ge(st, off) and self.prove_ge(st, size) and self.prove_ge(st, ladd(lc(n), ladd(off, size), -1))
        self.chk(ok, ("write" if write else "read") + "/object", ins, "%s of %d bytes can be %s outside its bounds" % (what, n, "written" if write else "read"))
    def other(self, st, ins, p, size, write): pass
    def text_write(self, st, ins, at, size):
        self.chk(False, "text-write", ins, "the text is written outside of the replacement of names")

    def on_call(self, st, ins, name, args):
        r = self.string(st, ins, name, args)
        if r is not None: return r
        nm = re.sub(r"^__isoc\d+_", "", name)
        if nm in CSTR:
            self.hit("C conversions"); a = args[0]
            if a[0] == "L": self.chk(self.inside(st, a[1]), "conversion", ins, "%s reads from outside the text (or a key without value)" % nm)
            elif a[0] == "P" and a[1][0] == "al": self.chk(self.ended(st, a), "conversion", ins, "%s reads a local buffer that need not be ended" % nm)
            if nm == "strlen" and a[0] == "L":
                return [(st, ("L", ladd(self.E, a[1], -1)))]
            return [(st, None)] if bits_of(ins.ty) or ins.ty == "ptr" else None
        if nm in ("strncmp", "memcmp") and args[0][0] == "L":
            c = self.const(args[1]); n = self.lin(st, args[2])
            if c is not None and isconst(n):
                if nm == "memcmp": self.on_access(st, ins, args[0], n, False)
                else: self.hit("reads of the text"); self.chk(self.inside(st, args[0][1]), "read", ins, "the text can be read outside its bounds (%s of %s)" % (nm, self.linstr(args[0][1])))
                return [(st, self.compared(st, ins, args[0][1], c[:n[0]]))]
        if args and args[-1][0] == "L" and len(args) > 2 and args[1][0] == "L" and re.search(r"basic_ostream.*::write$", name.split("[abi")[0]):
            self.on_access(st, ins, args[1], self.lin(st, args[2]), False); return None
        if CONV.match(name):
            i = 0 if len(args) < 3 or name != "x" else 0
            b, e = args[0], args[1]; self.hit("values handed to converters")
            ok = b[0] == e[0] == "L" and self.inside(st, b[1]) and self.inside(st, e[1])
            self.chk(ok, "value/" + name.split("::")[-1], ins, "%s is given a value that need not lie within the text" % name.split("::")[-1])
            if name.endswith("ParseString") and len(args) >= 5:
                o = self.room(st, args[2]); n = self.lin(st, args[3])
                self.chk(o and o[1] and self.prove_ge(st, ladd(lc(o[1]), ladd(o[0], n), -1)) and self.prove_ge(st, ladd(n, lc(-1))), "room/ParseString", ins, "ParseString is given more room than the field has")
            if name.endswith("ParseAddresIP"):
                q = ls(self.fresh(st, "ipend", None, ins, 4096, TOP)); self.add_ge(st, ladd(q, b[1], -1)) if b[0] == "L" else None
                if e[0] == "L": self.add_ge(st, ladd(e[1], q, -1))
                s = self.fresh(st, "ip", None, ins, -(1 << 63), (1 << 63) - 1)
                return [(st, ("A", (("L", ls(s)), ("L", q))))]
            for x in args[2:]:
                if x[0] == "P":
                    for k in [k for k in st.mem if k == self.memkey(x)]: del st.mem[k]
            return [(st, None)]
        return None
    def const(self, a):
        """the characters of a constant, up to its first zero byte"""
        if a[0] != "P" or a[1][0] != "g" or a[2]: return None
        g = self.m.globals.get(a[1][1])
        return None if not g or "init" not in g or g["init"][0] != "str" else "x" * self.cstr_len(g["init"][1])
    def compared(self, st, ins, p, c):
        """a comparison of the text at p with c: zero means that the text goes on for as long as c"""
        v = self.opaque(st, ins, "byte")
        if c and v[0] == "L": st.defs[v[1][1][0][0]] = ("like", p, len(c))
        return v
    def ended(self, st, a): return bool(st.auto and (a[1] in st.auto or ("last", a[1]) in st.auto))
    # local buffers: which ones hold a zero byte (after the last copy into them)
    def on_memop(self, st, ins, name, args, n):
        d = args[0]
        if d[0] == "P" and d[1][0] == "al":
            z = "memset" in name and self.same(st, self.lin(st, args[1]), ZERO)
            self.mark(st, d[1], False); self.last(st, d, n, z)
    def mark(self, st, root, on):
        s = set(st.auto or ()); (s.add if on else s.discard)(root); st.auto = tuple(sorted(s, key=repr))
    def last(self, st, p, n, z):
        """("last", b): the last byte of b is zero; ("zero", b): all of b is"""
        size = self.alloca_size.get(p[1])
        if not size: return
        if not z: self.mark(st, ("zero", p[1]), False)
        off = ladd(self.plin(st, p), self.plin(st, ("P", p[1], ())), -1); e = ladd(off, n)
        if z and self.same(st, off, ZERO) and self.prove_ge(st, ladd(n, lc(-size))): self.mark(st, ("zero", p[1]), True); self.mark(st, ("last", p[1]), True)
        elif not z and ("last", p[1]) in (st.auto or ()) and not self.prove_ge(st, ladd(lc(size - 1), e, -1)): self.mark(st, ("last", p[1]), False)
    def on_store(self, st, ins, p, v):
        if p[0] != "P" or p[1][0] != "al" or p[1] not in self.alloca_size: return
        z = v[0] == "L" and self.same(st, v[1], ZERO) or v == ("P", ("null",), ())
        if ins.x.get("vsz") == 1 and z: self.mark(st, p[1], True)
        elif not z and st.auto: self.last(st, p, lc(ins.x.get("vsz") or 8), z)
    def setup(self, st): self.base(st); st.auto = ()

    # ---- std::string
    def length(self, st, a):
        k = self.slen(a)
        if self.is_text(a): return self.LT
        v = st.mem.get(k)
        if v is None or v[0] != "L": v = ("L", ls(self.fresh(st, "strlen", None, None, 0, 1 << 62))); st.mem[k] = v
        return v[1]
    def is_text(self, a): return False
    def setlen(self, st, a, l):
        if len(l[1]) > 1:
            s = ls(self.fresh(st, "strlen", None, None, 0, 1 << 62))
            try: self.add_ge(st, ladd(s, l, -1)); self.add_ge(st, ladd(l, s, -1))
            except Infeasible: pass
            l = s
        if a[0] == "P" and not self.is_text(a): st.mem[self.slen(a)] = ("L", l)
    def string(self, st, ins, name, args):
        if not (name.startswith("std::") and "basic_string" in name and args): return None
        nm = name.split("[abi")[0]; meth = nm.rsplit("::", 1)[-1] if "operator+<" not in nm else "operator+"
        fn = ins.x.get("fn", ""); a = args[0]
        if a[0] != "P": return None
        if meth.startswith("~"): return [(st, None)]
        L = lambda v: self.uns(st, self.lin(st, v), 64, ins)
        what = "std::string::" + meth
        pos = lambda i, strict: self.chk(self.prove_ge(st, i) and self.prove_ge(st, ladd(ladd(self.length(st, a if meth != "substr" else args[1]), i, -1), lc(-1 if strict else 0))), "string/" + meth, ins, "%s is given a position the string need not have" % what)
        if meth in ("length", "size"): return [(st, ("L", self.length(st, a)))]
        if meth == "empty": return [(st, ("C", ("eq", self.length(st, a))))]
        if meth in ("c_str", "data"):
            return [(st, ("L", self.T) if self.is_text(a) else None)]
        if self.is_text(a) and meth == "replace" and len(args) >= 4 and args[1][0] == args[2][0] == "L":
            i = L(args[1]); c = L(args[2]); n = self.strlen(st, args[3]) if args[3][0] == "P" and len(args) == 4 else None
            self.hit("string positions"); pos(i, False)
            self.chk(n is not None and self.same(st, n, c), "text-changed", ins, "the text is made longer or shorter while positions in it are kept"); self.text_write(st, ins, ladd(self.T, i), c)
            return [(st, None)]
        if self.is_text(a) and meth not in ("operator[]", "at", "find", "begin", "end", "rfind", "compare", "back", "front"):
            self.chk(False, "text-changed", ins, "the text is changed (%s) while positions in it are kept" % what); return None
        if meth in ("operator[]", "at"):
            i = L(args[1]); self.hit("string positions"); pos(i, meth == "at")
            if self.is_text(a): return [(st, ("L", ladd(self.T, i)))]
            return [(st, None)]
        if meth in ("back", "front", "pop_back"):
            self.hit("string positions"); n = self.length(st, a)
            self.chk(self.prove_ge(st, ladd(n, lc(-1))), "string/" + meth, ins, "%s on a string that can be empty" % what)
            if meth == "pop_back": self.setlen(st, a, ladd(n, lc(-1)))
            return [(st, None)]
        if meth == "push_back": self.setlen(st, a, ladd(self.length(st, a), lc(1))); return [(st, None)]
        if meth in ("resize", "append") and len(args) >= 2 and args[1][0] != "P" or meth == "assign" and len(args) == 3 and args[1][0] != "P":
            n = L(args[1]); self.setlen(st, a, ladd(self.length(st, a), n) if meth == "append" else n); return [(st, a)]
        if meth == "clear": self.setlen(st, a, ZERO); return [(st, None)]
        if meth in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            n = self.length(st, a)
            r = ls(self.fresh(st, "found", None, ins, 0, (1 << 62)))
            one = args[1][0] != "P"
            k = lc(1) if one or meth != "find" else self.strlen(st, args[1])
            s2 = st.copy(); self.mark(s2, ("found",), False); self.mark(st, ("found",), True)
            try:
                self.add_ge(st, ladd(n, r, -1)); self.add_ge(st, ladd(ladd(n, r, -1), k if k is not None else ZERO, -1))
                if n == self.LT and k is not None and len(k[1]) == 1 and self.syms[k[1][0][0]].kind == "strlen":      # the last position at which the name can be found, by a name that joins keep
                    t = ls(self.intern(("tail", n, k), "tail", None, -TOP, TOP)); d = ladd(n, k, -1)
                    if t[1][0][0] not in self.zone_syms: self.zone_syms += (t[1][0][0],)
                    self.add_ge(st, ladd(t, d, -1)); self.add_ge(st, ladd(d, t, -1)); self.add_ge(st, ladd(t, r, -1))
                if meth == "find" and len(args) > 2: self.add_ge(st, ladd(r, L(args[2]), -1))
                out = [(st, ("L", r))]
            except Infeasible: out = []
            return out + [(s2, ("L", lc(-1)))]
        if meth == "substr":
            p = L(args[2]); n = self.length(st, args[1]); self.hit("string positions"); pos(p, False)
            c = self.lin(st, args[3]); rest = ladd(n, p, -1)
            out = []
            if isconst(c) and c[0] in (-1, (1 << 64) - 1): self.setlen(st, a, rest); return [(st, None)]
            c = L(args[3]); s2 = st.copy()
            try:
                for y in self.assume(st, ("ge", ladd(rest, c, -1))): self.setlen(y, a, c); out.append((y, None))
            except Infeasible: pass
            try:
                for y in self.assume(s2, ("ge", ladd(ladd(c, rest, -1), lc(-1)))): self.setlen(y, a, rest); out.append((y, None))
            except Infeasible: pass
            return out
        if meth in ("basic_string", "operator="):
            if len(args) == 1 or len(args) == 2 and "Ev" in fn: self.setlen(st, a, ZERO); return [(st, None)]
            s = args[1]
            if len(args) >= 3 and bits_of("i64") and args[2][0] in ("L",) and "EPKcm" in fn:
                n = self.lin(st, args[2]); self.hit("strings made from the text")
                if s[0] == "L": self.chk(self.inside(st, s[1]) and self.prove_ge(st, n) and self.prove_ge(st, ladd(self.E, ladd(s[1], n), -1)), "string/from-text", ins, "a string is made from bytes outside the text")
                self.setlen(st, a, n); return [(st, a if meth == "operator=" else None)]
            n = self.strlen(st, s)
            if s[0] == "L":
                self.hit("strings made from the text"); self.chk(self.inside(st, s[1]), "string/from-text", ins, "a string is made from bytes outside the text")
                n = ladd(self.E, s[1], -1)
            self.setlen(st, a, n if n is not None else ls(self.fresh(st, "strlen", None, ins, 0, 1 << 62)))
            return [(st, a if meth == "operator=" else None)]
        if meth in ("operator+=", "append"):
            n = self.strlen(st, args[1]) if args[1][0] == "P" else lc(1) if len(args) == 2 and args[1][0] == "L" and meth == "operator+=" else None
            self.setlen(st, a, ladd(self.length(st, a), n) if n is not None and (len(args) == 2 or meth == "operator+=") else ls(self.fresh(st, "strlen", None, ins, 0, 1 << 62)))
            return [(st, a)]
        if meth == "operator+" and len(args) == 3:
            x, y = (self.strlen(st, z) if z[0] == "P" else lc(1) for z in args[1:])
            self.setlen(st, a, ladd(x, y) if x is not None and y is not None else ls(self.fresh(st, "strlen", None, ins, 0, 1 << 62)))
            return [(st, None)]
        if meth == "compare" and len(args) == 4 and args[3][0] == "P":
            i = L(args[1]); self.hit("string positions"); pos(i, False)
            if self.is_text(a): return [(st, self.compared(st, ins, ladd(self.T, i), self.const(args[3])))]
            return [(st, None)]
        if meth in ("begin", "end", "cbegin", "cend", "compare", "get_allocator", "capacity"): return [(st, None)]
        self.setlen(st, a, ls(self.fresh(st, "strlen", None, ins, 0, 1 << 62)))
        return [(st, None)]
    def strlen(self, st, s):
        """length of a string object or of a constant"""
        if s[0] != "P": return None
        if s[1][0] == "g":
            g = self.m.globals.get(s[1][1])
            return lc(self.cstr_len(g["init"][1])) if g and "init" in g and g["init"][0] == "str" and not s[2] else None
        return self.length(st, s)


class Lexer(Text):
    max_disjuncts = 1
    def key(self, st):
        out = [st.auto]
        for c in ("Line.block_type_", "Line.block_stack_", "Line.key_"):
            v = self.memlin(st, c); out.append(None if v is None else v[0] if isconst(v) else self.decide(st, ("eq", v)))
        for c in ("Line.key_begin_", "Line.val_begin_", "Line.val_end_"):
            v = self.memlin(st, c); out.append(None if v is None else self.decide(st, ("eq", v)))
        return tuple(out)
    def setup(self, st):
        super().setup(st)
        p = lambda *f: self.fieldptr(*f)
        self.cur0 = self.textptr(st, "cursor")
        self.keep(self.cur0, st)
        st.mem[self.memkey(p("current_"))] = ("L", self.cur0)
        e = self.textptr(st, "end_"); self.keep(e, st)
        st.mem[self.memkey(p("end_"))] = ("L", e)
        self.line_size = self.m.struct("FNLog::Line")["size"]
    def keep(self, l, st):
        s = l[1][0][0]; self.ibnd[s] = st.bnd.get(s, (4096, TOP))
    def fieldptr(self, f):
        o, n = next((z[1], z[2]) for z in self.m.struct("FNLog::LexState")["fields"] if z[0] == f)
        return ("P", ("arg", 0), (("f", "FNLog::LexState", f, o, n),))
    def mem_effect(self, st, ins, name, args, n):
        super().mem_effect(st, ins, name, args, n)
        d = args[0]
        zero = name.startswith("llvm.memset") and self.same(st, self.lin(st, args[1]), ZERO) or name.startswith("llvm.memcpy") and args[1][0] == "P" and not args[1][2] and ("zero", args[1][1]) in (st.auto or ())
        if zero and d[0] == "P" and d[2] and d[2][-1][2] == "line_" and self.prove_ge(st, ladd(n, lc(-self.line_size))):
            for z in self.m.struct("FNLog::Line")["fields"]:
                st.mem[self.memkey(("P", d[1], d[2] + (("f", "FNLog::Line", z[0], z[1], z[2]),)))] = ("L", ZERO)
    def fld(self, st, c):
        v = self.memlin(st, c)
        return v
    def on_ret(self, st, ins, v):
        r = self.lin(st, v); z = self.same(st, r, ZERO)
        if not z and self.differ(st, r, ZERO):
            self.hit("refusing exits"); return
        self.hit("accepting exits")
        g = lambda c: self.memlin(st, c)
        cur = g("LexState.current_")
        self.chk(cur is not None and self.inside(st, cur), "cursor", ins, "the lexer can leave its cursor outside the text")
        kb, ke, vb, ve, k = (g("Line." + c) for c in ("key_begin_", "key_end_", "val_begin_", "val_end_", "key_"))
        if kb is None or ke is None: self.chk(False, "key", ins, "the key of a line can be undefined"); return
        if self.same(st, kb, ke): return
        self.chk(self.inside(st, kb) and self.inside(st, ke) and self.prove_ge(st, ladd(ke, kb, -1)), "key", ins, "the key of a line can lie outside the text")
        self.chk(vb is not None and ve is not None and self.inside(st, vb) and self.inside(st, ve) and self.prove_ge(st, ladd(ve, vb, -1)), "value", ins,
                 "a line with a key can be accepted while its value lies outside the text or is not set")
        self.chk(cur is not None and ve is not None and self.prove_ge(st, ladd(cur, ve, -1)), "value-cursor", ins, "a value can end behind the cursor")


class Conv(Text):
    """a converter: begin and end are positions of the text, begin <= end"""
    max_disjuncts = 3; header_disjuncts = 1
    def may_alias(self, st, k1, k2):
        if k1[0] != k2[0] and k1[0][0] == k2[0][0] == "arg": return False      # the field and the place of its length
        return super().may_alias(st, k1, k2)
    def make_args(self, fn, st):
        out = list(super().make_args(fn, st))
        for i in (0, 1):
            s = self.intern(("text", "arg%d" % i), ("begin", "end")[i] + " of the value", None, 4096, TOP); out[i] = ("L", ls(s))
        return out
    def setup(self, st):
        super().setup(st)
        b, e = self.argv[0][1], self.argv[1][1]
        for l in (b, e):
            self.add_ge(st, ladd(l, self.T, -1)); self.add_ge(st, ladd(self.E, l, -1))
        self.add_ge(st, ladd(e, b, -1)); self.be = (b, e)
        self.zone_syms += (b[1][0][0], e[1][0][0])
        if self.name.endswith("::ParseString") and len(self.argv) > 4:
            self.buf, self.blen = self.argv[2], self.argv[3][1]
            self.add_ge(st, ladd(self.blen, lc(-1)))
    def other(self, st, ins, p, size, write):
        if not write or p[0] != "P" or p[1][0] != "arg": return
        if getattr(self, "buf", None) and p[1] == self.buf[1]:
            off = ladd(self.plin(st, p), self.plin(st, self.buf), -1); self.hit("accesses of local objects")
            self.chk(self.prove_ge(st, off) and self.prove_ge(st, ladd(self.blen, ladd(off, size), -1)), "write/room", ins, "more can be written into the field than its room")
    def on_ret(self, st, ins, v):
        if getattr(self, "buf", None):
            w = st.mem.get(self.memkey(self.argv[4]))
            self.chk(w and w[0] == "L" and self.prove_ge(st, w[1]) and self.prove_ge(st, ladd(ladd(self.blen, lc(-1)), w[1], -1)), "length", ins, "the length given back need not fit the field")
        if self.name.endswith("::ParseAddresIP"):
            q = v[1][1] if v and v[0] == "A" and len(v[1]) > 1 else None
            self.chk(q is not None and q[0] == "L" and self.prove_ge(st, ladd(q[1], self.be[0], -1)) and self.prove_ge(st, ladd(self.be[1], q[1], -1)), "end-of-address", ins, "the end of an address can lie outside its value")


COUNTS = {"LexState.channel_size_": "FNLog::Logger::MAX_CHANNEL_SIZE", "Channel.device_size_": "FNLog::Channel::MAX_DEVICE_SIZE"}
LINES = ("key_begin_", "key_end_", "val_begin_", "val_end_")


class Section(Text):
    max_disjuncts = 2
    text_arg = None
    def __init__(self, m, res, name, limits):
        super().__init__(m, res, name); self.limits = limits
    def is_text(self, a): return self.text_arg is not None and a == ("P", ("arg", self.text_arg), ())
    def sym_range(self, st, cls, ins):
        n = self.limits.get(cls)
        return (0, n) if n is not None else super().sym_range(st, cls, ins)
    def key(self, st):
        b, e = self.memlin(st, "Line.key_begin_"), self.memlin(st, "Line.key_end_")
        return (st.auto, None if b is None or e is None else self.decide(st, ("eq", ladd(e, b, -1))))
    def fld(self, p, f):
        """the cell of field f of the LexState p leads to (of its line, for the line's fields)"""
        S = {z[0]: z for z in self.m.struct("FNLog::LexState")["fields"]}
        step = lambda n, z: ("f", "FNLog::" + n, z[0], z[1], z[2])
        if f in S: return self.memkey(("P", p[1], p[2] + (step("LexState", S[f]),)))
        L = {z[0]: z for z in self.m.struct("FNLog::Line")["fields"]}
        return self.memkey(("P", p[1], p[2] + (step("LexState", S["line_"]), step("Line", L[f]))))
    def line(self, st, p, cur):
        """a recognised line"""
        kb, ke, vb, ve = (self.textptr(st, f) for f in LINES)
        self.add_ge(st, ladd(ladd(ke, kb, -1), lc(-1)))
        self.add_ge(st, ladd(ve, vb, -1))
        if cur is not None: self.add_ge(st, ladd(cur, ve, -1))
        for f, v in zip(LINES, (kb, ke, vb, ve)): st.mem[self.fld(p, f)] = ("L", v)
    def drop(self, st, p):
        for k in [k for k in st.mem if kcls(k).startswith("Line.")]: del st.mem[k]
    def state(self, st, p):
        """the cursor and the ends of the text at entry"""
        for f in ("current_", "end_", "first_"): st.mem[self.fld(p, f)] = ("L", self.textptr(st, f))
    def setup(self, st):
        super().setup(st)
        n = self.name.split("::")[-1]
        if self.at_entry and self.argv[0][0] == "P": self.state(st, self.argv[0])
        if n == "HotUpdateLogger":      # the number of the dispatching channel
            for a in self.argv[1:2]:
                if a[0] == "L": self.add_ge(st, a[1]); self.add_ge(st, ladd(lc(self.limits["LexState.channel_size_"] - 1), a[1], -1))
        if n.startswith("Predefined") and n != "PredefinedInplace":
            self.line(st, self.argv[0], st.mem[self.fld(self.argv[0], "current_")][1])
    at_entry = True
    def cursor(self, st, ins, p, key, msg):
        v = st.mem.get(self.fld(p, "current_"))
        self.chk(v and v[0] == "L" and self.inside(st, v[1]), key, ins, msg)
    def on_store(self, st, ins, p, v):
        super().on_store(st, ins, p, v)
        n = self.limits.get(self.cls(p))
        if n is not None:
            l = self.lin(st, v); self.hit("counts")
            self.chk(self.prove_ge(st, l) and self.prove_ge(st, ladd(lc(n), l, -1)), "count/" + self.cls(p), ins, "%s can leave 0..%d" % (self.cls(p), n))
    def on_call(self, st, ins, name, args):
        n = name.split("::")[-1].split("(")[0]
        if name in ("FNLog::Lex", "FNLog::ParseChannel", "FNLog::ParseDevice"):
            p = args[0]; self.hit("calls of the lexer" if n == "Lex" else "calls of sections")
            self.cursor(st, ins, p, n + "/cursor", "%s is entered with a cursor outside the text" % n)
            self.drop(st, p)
            if n != "Lex":
                for k in [k for k in st.mem if not kcls(k).startswith("LexState.") and k != ("x",)]: del st.mem[k]
                st.mem[self.fld(p, "current_")] = ("L", self.textptr(st, "cursor"))
                return [(st, None)]
            a, b, c = st, st.copy(), st.copy(); out = []
            r = ls(self.fresh(a, "error", None, ins, -(1 << 31), (1 << 31) - 1)); self.add_ne(a, r)
            cur = ls(self.fresh(a, "cursor", None, None, 4096, TOP)); self.add_ge(a, ladd(cur, self.T, -1)); self.add_ge(a, ladd(ladd(self.E, cur, -1), lc(1)))
            a.mem[self.fld(p, "current_")] = ("L", cur); out.append((a, ("L", r)))
            cur = self.textptr(b, "cursor"); b.mem[self.fld(p, "current_")] = ("L", cur)
            k = ls(self.fresh(b, "key", None, None, 0, TOP))
            for f in LINES[:2]: b.mem[self.fld(p, f)] = ("L", k)
            for f in LINES[2:]: b.mem[self.fld(p, f)] = ("L", ls(self.fresh(b, f, None, None, 0, TOP)))
            out.append((b, ("L", ZERO)))
            cur = self.textptr(c, "cursor"); c.mem[self.fld(p, "current_")] = ("L", cur); self.line(c, p, cur)
            out.append((c, ("L", ZERO)))
            return out
        if name.startswith("FNLog::Predefined"):
            self.hit("calls of replacements")
            i = 0 if n == "PredefinedInplace" else 1
            self.chk(self.text_arg is None or self.is_text(args[i]), n + "/text", ins, "names are replaced in something else than the text")
            if i:
                g = lambda f: self.lin(st, st.mem.get(self.fld(args[0], f), ("O", -1))) if st.mem.get(self.fld(args[0], f), ("O",))[0] == "L" else None
                b, e = g("val_begin_"), g("val_end_")
                self.chk(b is not None and e is not None and self.inside(st, b) and self.inside(st, e) and self.prove_ge(st, ladd(e, b, -1)), n + "/value", ins, "the value of a %s line need not lie within the text" % ("variable" if "Var" in n else "macro"))
            return [(st, None)]
        if name == "FNLog::ParseLogger":
            p = args[0]; self.hit("calls of sections")
            for k in [k for k in st.mem if k[0] == p[1]]: del st.mem[k]
            for f in ("current_", "end_", "first_"): st.mem[self.fld(p, f)] = ("L", self.textptr(st, f))
            return [(st, None)]
        if name == "FNLog::ParseString" and len(args) > 4:
            super().on_call(st, ins, name, args)
            n_ = self.lin(st, args[3]); w = ls(self.fresh(st, "length", None, ins, 0, (1 << 31) - 1)); self.add_ge(st, ladd(ladd(n_, lc(-1)), w, -1))
            c = self.cls(args[4]); lim = self.limits.get(c)
            if lim is not None: self.hit("counts"); self.chk(self.prove_ge(st, ladd(lc(lim), w, -1)), "count/" + c, ins, "%s can leave 0..%d" % (c, lim))
            st.mem[self.memkey(args[4])] = ("L", w)
            return [(st, None)]
        return super().on_call(st, ins, name, args)
    def on_ret(self, st, ins, v):
        n = self.name.split("::")[-1]
        if n in ("ParseDevice", "ParseChannel", "ParseLogger"):
            self.hit("exits"); self.cursor(st, ins, self.argv[0], "exit/cursor", "the cursor can be left outside the text")
    def text_write(self, st, ins, at, size):
        self.hit("writes of the text")
        ok = self.name.split("::")[-1].startswith("Predefined") and self.prove_ge(st, ladd(at, self.T, -1)) and self.prove_ge(st, size) and self.prove_ge(st, ladd(ladd(self.T, self.LT), ladd(at, size), -1))
        self.chk(ok, "text-write", ins, "the text can be written outside its length")


def run(res, config):
    m = ctx.module(config)
    size = lambda c, f: next(z[2] for z in m.struct("FNLog::" + c)["fields"] if z[0] == f)
    tot = {}
    def go(e, f):
        e.run(f); res.fns.add(f.name)
        for k, v in e.n.items(): tot[k] = tot.get(k, 0) + v
        return e
    f = m.fn("FNLog::Lex")
    e = go(Lexer(m, res, f.name), f); res.need(e.n.get("accepting exits", 0), "accepting exits of the lexer")
    for f in m.fns_rx(CONV): go(Conv(m, res, f.name), f)
    limits = {"LexState.name_len_": size("LexState", "name_") - 1, "LexState.desc_len_": size("LexState", "desc_") - 1,
              "LexState.channel_size_": size("LexState", "channels_") // m.struct("FNLog::Channel")["size"], "Channel.device_size_": size("Channel", "devices_") // m.struct("FNLog::Device")["size"]}
    for n, text in (("ParseLogger", 1), ("ParseChannel", None), ("ParseDevice", None), ("PredefinedMacro", 1), ("PredefinedVar", 1), ("PredefinedInplace", 0), ("InitFromYMAL", None), ("HotUpdateLogger", None)):
        for f in m.fns_rx("^FNLog::%s$" % n):
            e = Section(m, res, f.name, limits); e.text_arg = text; e.at_entry = n.startswith("Parse") or n in ("PredefinedMacro", "PredefinedVar")
            go(e, f)
    for k in ("reads of the text", "values handed to converters", "C conversions", "string positions", "writes of the text", "accesses of local objects", "array indices", "counts", "calls of the lexer", "calls of sections"):
        res.need(tot.get(k, 0), k)
