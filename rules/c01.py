"""C01: building a record never writes outside its fixed text buffer."""
import ctx, functools
from common import *

EXPLANATION = ("Abstract interpretation (linear bounds with disjunctions) of every stream operation, the record constructor, the printf-style front end, publication and transmission, with their helpers expanded. "
               "Entry and exit invariant of every operation: 0 <= length <= size of the text buffer, held by every store to a length. Each formatter that is handed a place in the text is analysed on its own for the "
               "values the caller can pass: the furthest byte it can write and the length it can return; the caller must have that room.")
RULE = "for every write of n bytes at text offset o: 0 <= o and o + n <= size of the text; for every store to a length: 0 <= value <= size of the text; local buffers and constant tables are indexed within their size"
ASSUMPTIONS = ["calendar functions of the C library return fields within their documented ranges",
               "gcvt(x, n) writes at most n + 8 bytes, snprintf(p, n) at most n"]
STREAM = (r"FNLog::LogStream::operator<<", r"^FNLog::LogStream::operator<<", r"FNLog::LogStream::(write_buffer|write_longlong|write_ulonglong|write_pointer|write_binary|write_container|write_number)", r"^FNLog::short_path$")
TM = {"tm.tm_sec": (0, 60), "tm.tm_min": (0, 59), "tm.tm_hour": (0, 23), "tm.tm_mday": (1, 31), "tm.tm_mon": (0, 11)}
READERS = re.compile(r"^(strlen|fwrite|write|send|sendto|memchr|printf|puts|fputs|isprint|memcmp|strncmp|strcmp|fprintf|std::.*|operator delete.*|free)$")


class Bounds(Base):
    """shared: bounds of local buffers and tables, effects of C library calls on text"""
    keep_record = True
    max_disjuncts = 4
    loop_unroll = 24
    widen_after = 3
    max_visits = 200000

    def __init__(self, m, res, w, memo):
        super().__init__(m); self.res = res; self.w = w; self.memo = memo; self.n = {}; self.str = {}
        self.impure = memo.setdefault("impure", set())    # formatters that write elsewhere than to the place they are given

    def hit(self, k, n=1): self.n[k] = self.n.get(k, 0) + n

    def setup(self, st):
        for i, (ty, nm, bv) in enumerate(self.f.args):
            if ty == "ptr" and ("arg", i) != self.dstroot: self.intern(("addr", ("arg", i)), "addr", ("arg", i), 0, (1 << 64) - 1)

    # -- where a pointer leads: ('text', offset) | ('dst', offset) | ('local', offset, size) | ('table', offset, size) | None
    def place(self, st, ptr):
        if ptr[0] != "P": return None
        off = None
        for s in ptr[2]:
            if s[0] == "f":
                n = s[1].split("::")[-1] + "." + s[2]
                if n == "LogData.content_": off = ZERO
                elif n in ("Logger.name_", "Logger.desc_"): off = ZERO; kind = n
                elif off is not None: off = ladd(off, lc(s[3]))
            elif s[0] == "x" and off is not None: off = ladd(off, s[1], s[2])
        if off is not None:
            if any(s[0] == "f" and s[2] == "content_" for s in ptr[2]): return ("text", off, self.SIZE)
            return ("name", off, self.m.field_size("FNLog::Logger", kind.split(".")[1]))
        if any(s[0] == "f" and s[1].startswith(("FNLog::", "UDP")) for s in ptr[2]): return None
        off = ZERO
        for s in ptr[2]:
            off = ladd(off, lc(s[3])) if s[0] == "f" else ladd(off, s[1], s[2])
        r = ptr[1]
        if r[0] == "al" and r in self.alloca_size: return ("local", off, self.alloca_size[r])
        if r[0] == "g":
            g = self.m.globals.get(r[1]) or {}
            if g.get("size"): return ("table", off, g["size"])
            return None
        if r == self.dstroot: return ("dst", off, None)
        return None

    dstroot = None

    @property
    def SIZE(self): return self.m.field_size("FNLog::LogData", "content_")

    def on_access(self, st, ins, ptr, size, write):
        pl = self.place(st, ptr)
        if pl is None:
            if write: self.impure.add(self.f.key)
            return
        kind, off, tot = pl
        if kind != "local" and kind != "dst" and write: self.impure.add(self.f.key)
        if kind == "dst":
            if write:
                lo = self.lo(st, off); hi = self.hi(st, ladd(off, size))
                self.ext = max(self.ext, hi)
                if lo < 0 and not self.prove_ge(st, off): self.neg = ins.where()
            return
        if kind in ("local", "table", "name") and isconst(off) and isconst(size): return
        if kind in ("name",) and not write: return
        if kind == "table" and write: return
        if kind == "text" and not write: return
        self.hit("text writes" if kind == "text" else "indexed accesses to local buffers and tables")
        ok = (isconst(size) and size[0] == 0) or self.prove_ge(st, off) and self.prove_ge(st, ladd(lc(tot), ladd(off, size), -1))
        what = {"text": "the record's text", "local": "a local buffer", "table": "a constant table", "name": "the logger's name or description"}[kind]
        self.res.check(ok, self.w + "/" + kind, ins.where(), "bytes up to offset %s of %s can be accessed, it has %d" % (self.hi(st, ladd(off, size)), what, tot),
                       what="%s: access within %s" % (self.w, what))

    def on_store(self, st, ins, ptr, val):
        c = self.cls(ptr)
        if c in ("Logger.name_len_", "Logger.desc_len_"):
            l = self.lin(st, val); tot = self.m.field_size("FNLog::Logger", c[7:-4]); self.hit("name lengths stored")
            self.res.check(self.prove_ge(st, l) and self.prove_ge(st, ladd(lc(tot), l, -1)), self.w + "/name-length", ins.where(),
                           "the length of the logger's name or description can be stored outside 0..%d" % tot, what=self.w + ": name length stays within the name")
        if c == "LogData.content_len_":
            l = self.lin(st, val); self.hit("lengths stored")
            self.res.check(self.prove_ge(st, l) and self.prove_ge(st, ladd(lc(self.SIZE), l, -1)), self.w + "/length", ins.where(),
                           "a record's length can be stored outside 0..%d: %s..%s" % (self.SIZE, self.lo(st, l), self.hi(st, l)), what=self.w + ": length stays within the text")

    def sym_range(self, st, cls, ins):
        if cls == "LogData.content_len_": return (0, self.SIZE)
        if cls == "Logger.name_len_": return (0, self.m.field_size("FNLog::Logger", "name_"))
        if cls == "Logger.desc_len_": return (0, self.m.field_size("FNLog::Logger", "desc_"))
        if cls == "LogData.priority_": return (0, self.m.enum("PRIORITY_MAX") - 1)
        if cls in ("LexState.name_len_", "LexState.desc_len_"):     # what the parser stores there: checked with the parser (C13)
            return (0, self.m.field_size("FNLog::Logger", cls[9:-4]) - 1)
        if cls in TM: return TM[cls]
        return super().sym_range(st, cls, ins)

    def load_mem(self, st, ins, ptr):
        v = super().load_mem(st, ins, ptr)
        g = self.m.globals.get(ptr[1][1]) if ptr[0] == "P" and ptr[1][0] == "g" else None
        if g and g.get("const") and v[0] == "L" and v[1][1] and self.syms[v[1][1][0][0]].kind == "load":
            ix = [k for k, s in enumerate(ptr[2]) if s[0] == "x" and not isconst(s[1])]
            if len(ix) == 1:
                s = ptr[2][ix[0]]; lo, hi = self.lo(st, s[1]), self.hi(st, s[1])
                if 0 <= lo <= hi < 512:
                    c = [self.const_load(("P", ptr[1], ptr[2][:ix[0]] + (("x", lc(int(n)), s[2], s[3]),) + ptr[2][ix[0] + 1:]), ins.ty) for n in range(int(lo), int(hi) + 1)]
                    if all(x and x[0] == "L" and isconst(x[1]) for x in c):
                        self.set_bnd(st, v[1][1][0][0], min(x[1][0] for x in c), max(x[1][0] for x in c))
        # calendar fields live in the C library's struct tm
        if ptr[0] == "P" and v[0] == "L" and len(v[1][1]) == 1 and self.syms[v[1][1][0][0]].kind == "load":
            for s in reversed(ptr[2]):
                if s[0] == "f":
                    r = TM.get("tm." + s[2]) if s[1].split("::")[-1] == "tm" else None
                    if r: self.set_bnd(st, v[1][1][0][0], *r)
                    break
        return v

    # -- calls
    def on_call(self, st, ins, name, args):
        outp = [(i, self.place(st, a)) for i, a in enumerate(args) if a[0] == "P"]
        outp = [(i, p) for i, p in outp if p and p[0] in ("text", "dst", "local", "name")]
        base = name.split("(")[0]
        if base in ("snprintf", "vsnprintf", "__snprintf_chk"):
            n = self.uns(st, self.lin(st, args[1]), 64, ins)
            self.on_access(st, ins, args[0], n, True); self.remember(st, args[0], n)
            return None
        if base == "gcvt":
            n = ladd(self.lin(st, args[1]), lc(8))
            self.on_access(st, ins, args[2], n, True); self.remember(st, args[2], n)
            return [(st, args[2])]
        if base == "strlen":
            k = self.memkey(args[0]) if args[0][0] == "P" else None
            h = self.str.get(k)
            pl = self.place(st, args[0])
            if pl and pl[0] == "table" and isconst(pl[1]): h = pl[2] - pl[1][0]
            s = self.fresh(st, "strlen", None, ins, 0, (1 << 62) if h is None else max(h - 1, 0))
            return [(st, ("L", ls(s)))]
        if base in ("modf", "std::modf"):
            lo, hi, nan = self.fval(st, args[0])
            s = self.fresh(st, "modf-int", None, ins); t = self.fresh(st, "modf-frac", None, ins)
            if not nan and lo >= 0 and hi < INF:
                st.fb[s] = (float(math.floor(lo)), float(math.floor(hi)), False); st.fb[t] = (0.0, 1.0 - 2.0**-53, False)
            if args[1][0] == "P": self.store_mem(st, args[1], ("F", s))
            return [(st, ("F", t))]
        c = self.std_copy(st, ins, name, args)
        if c is not None: return c
        r = self.string_call(st, ins, name, args)
        if r is not None: return r
        f = self.m.fns.get(ins.x.get("fn"))
        if f is not None and f.blocks and outp and self.text_fn(f):
            r = None
            for i, p in outp:
                r = summary(self, st, f, i, args)
                ext, lo, hi, neg = r
                if neg: self.res.bad(self.w + "/formatter-before", neg, "a formatter can write before the place it is given")
                if ext > 0:
                    self.hit("formatter calls")
                    self.on_access(st, ins, args[i], lc(ext) if ext != INF else lc(1 << 62), True)
            if f.key in self.impure:
                for k in list(self.call_clobbers(st, ins, name, args)): st.mem.pop(k, None)
            if r and bits_of(ins.ty) and ins.ty != "i1":
                s = self.fresh(st, "len", None, ins, lo, hi)
                return [(st, ("L", ls(s)))]
            return [(st, None)]
        if any(p[0] in ("text", "dst") for _, p in outp) and not READERS.match(base) and not (f is not None and f.blocks):
            self.res.bad(self.w + "/unbounded/" + base, ins.where(), "%s is given a place in a record's text without a bound" % base)
        return None

    def call_preserves(self, st, ins, name, key):
        return kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)

    def text_fn(self, f):
        return not re.search(r"::~?LogStream$|^FNLog::(FileHandler|UDPHandler)|EnterProc", f.name)

    def remember(self, st, ptr, n):
        h = self.hi(st, n)
        if ptr[0] == "P": 
            k = self.memkey(ptr); self.str[k] = max(self.str.get(k, 0), h)


class Fmt(Bounds):
    """one formatter, for argument values within given bounds: furthest byte written, range returned"""
    def __init__(self, m, res, w, memo, i):
        super().__init__(m, res, w, memo); self.dstroot = ("arg", i); self.ext = 0; self.neg = None; self.rlo = INF; self.rhi = -INF

    max_disjuncts = 256
    loop_unroll = 256

    def on_ret(self, st, ins, v):
        if v is None: return
        l = self.lin(st, v)
        self.rlo = min(self.rlo, self.lo(st, l)); self.rhi = max(self.rhi, self.hi(st, l))


def summary(e, st, f, i, args):
    rng = []
    for a, (ty, nm, bv) in zip(args, f.args):
        if ty in ("double", "float"): rng.append(e.fval(st, a))
        elif bits_of(ty) and ty != "ptr":
            l = e.lin(st, a); rng.append((e.lo(st, l), e.hi(st, l)))
        else: rng.append(None)
    key = (f.key, i, tuple(rng))
    if key in e.memo:
        if e.memo[key] is None: raise AnalysisError("recursive formatter " + f.name)
        return e.memo[key]
    e.memo[key] = None
    g = Fmt(e.m, e.res, f.name.split("::")[-1], e.memo, i)
    g.f = f; g.ibnd = {}
    s0 = new_state(); av = g.make_args(f, s0)
    for v, r, (ty, nm, bv) in zip(av, rng, f.args):
        if r is None: continue
        if v[0] == "F": s0.fb[v[1]] = r
        elif v[0] == "L" and v[1][1]:
            w = bits_of(ty); lo, hi = r
            if lo >= 0 or hi <= (1 << (w - 1)) - 1:
                # the declared bounds of an argument are those of its signed reading; values are passed as they are
                g.ibnd[v[1][1][0][0]] = (lo, hi)
    g.run(f, init=s0, args=av)
    e.res.fns.add(f.name)
    e.res.count("formatters analysed for given value ranges")
    for k, n in g.n.items(): e.hit(k, n)
    r = (g.ext, g.rlo if g.rlo <= g.rhi else 0, g.rhi if g.rlo <= g.rhi else 0, g.neg)
    e.memo[key] = r
    return r


def run(res, config):
    m = ctx.module(config, expand=STREAM)
    memo = {}
    roots = [f for f in m.fns_rx(r"^vroot_(ls_|use_|stream_set|push$|transmit$)")] + [f for f in m.fns_rx(r"^FNLog::LogStream::~?LogStream$")]
    res.need(len([f for f in roots if f.name.startswith("vroot_ls_")]), "stream operations", 10)
    tot = {}
    for f in roots:
        e = Bounds(m, res, f.name.replace("vroot_", ""), memo); e.run(f); res.fns.add(f.name)
        for k, n in e.n.items(): tot[k] = tot.get(k, 0) + n
    mi = ctx.module(config, expand=("^FNLog::InitLogger$",))
    for f in [mi.fn("FNLog::Logger::Logger", body=True), mi.fn("FNLog::InitFromYMAL")]:
        e = Bounds(mi, res, f.name, memo); e.run(f); res.fns.add(f.name)
        for k, n in e.n.items(): tot[k] = tot.get(k, 0) + n
    res.need(tot.get("name lengths stored", 0), "name lengths stored", 3)
    for k, n in tot.items(): res.count(k, n)
    for k in ("text writes", "lengths stored", "formatter calls"): res.need(tot.get(k, 0), k, 5)
    return memo
