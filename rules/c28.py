"""C28: a record carries its own complete attributes, never those of a former record."""
import ctx
from common import *
import c01

EXPLANATION = ("Path-sensitive abstract interpretation with provenance of values. Constructor of the stream with everything it uses expanded: on every path that ends with a record, each attribute of that record was stored, with the value given to this statement "
               "(channel, priority held within the known ones, category, identify, place in the source and its lengths), the time read by this statement (seconds, and its fraction in milliseconds), and the number of the running thread; the prefix length is the text length at that point; "
               "no attribute of the slot is read before it was stored. Transmission: the new channel, category and identify, and for everything else the value of the same attribute of the given record, with exactly its text copied. "
               "Network input: every attribute is stored anew before the record is handed on. Every front end (stream, pack, macro, printf style; every priority) passes its own priority, channel, category, identify and source place to the constructor.")
RULE = "record accepted => every attribute stored from the statement's own values before publication; no attribute read before it is stored"
ASSUMPTIONS = ["the C library's clock and thread number calls report the time and the thread of the call"]
OPEN = "^FNLog::LogStream::(LogStream|~LogStream)$"
ATTR = ("channel_id_", "priority_", "category_", "identify_", "code_line_", "code_func_len_", "code_file_len_", "code_func_", "code_file_", "timestamp_", "precise_", "thread_", "prefix_len_", "content_len_")
FORMAT = re.compile(r"(^|\W)FNLog::write_[a-z_]+_unsafe\b")


class Attrs(Base):
    """auto = (attributes stored so far ((name, good?), ...), clock read?, slot held, text)"""
    max_disjuncts = 6
    widen_after = 3
    keep_record = True
    sizes_known = True

    def __init__(self, m, res, w):
        super().__init__(m); self.res = res; self.w = w; self.n = {}; self.clocks = set()
        self.LOW, self.HIGH = m.enum("PRIORITY_TRACE"), m.enum("PRIORITY_FATAL")

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def call_preserves(self, st, ins, name, key): return key[0] == ("arg", 0) and FORMAT.search(name) or kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)
    def setup(self, st):
        st.auto = ((), False, None, None)
        self.begin(st)
    def begin(self, st): pass

    # ---- where values come from
    def src(self, kind, lo=None, hi=None, ins=None): return self.intern(("source", kind), kind, None, lo, hi)
    def exact(self, st, l):
        """the value behind widenings that keep it (a narrowing that can lose digits is not one)"""
        for _ in range(6):
            if len(l[1]) != 1 or l[0] or l[1][0][1] != 1: return l
            s = l[1][0][0]; d = st.defs.get(s); sy = self.syms[s]
            if d and d[0] == "uns": l = d[1]
            elif sy.kind in ("uns", "sext") and sy.data: l = sy.data
            else: return l
        return l

    def kind(self, st, l):
        l = self.exact(st, l)
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1: return self.syms[l[1][0][0]].kind
        return None

    def fraction(self, st, l):
        """value is the clock's fraction in milliseconds"""
        l = self.exact(st, l)
        d = self.defof(st, l)
        if d is None and len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
            sy = self.syms[l[1][0][0]]
            if sy.kind == "div": d = ("div",) + tuple(sy.data)
        if d and d[0] in ("div", "sdiv", "udiv") and len(d) >= 3:
            k = self.kind(st, d[1]); q = d[2] if isinstance(d[2], int) else (d[2][0] if isconst(d[2]) else None)
            return (k, q) in (("clock fraction us", 1000), ("clock fraction ns", 1000000))
        return False

    def load_mem(self, st, ins, ptr):
        if ptr[0] == "P" and st.auto and st.auto[1]:
            c = self.cls(ptr)
            if ptr[1] in self.clocks and not ptr[2]: return ("L", ls(self.src("clock seconds")))
            if c in ("timeval.tv_sec", "timespec.tv_sec"): return ("L", ls(self.src("clock seconds")))
            if c == "timeval.tv_usec": return ("L", ls(self.src("clock fraction us", 0, 999999)))
            if c == "timespec.tv_nsec": return ("L", ls(self.src("clock fraction ns", 0, 999999999)))
        if ptr[0] == "P" and ptr[1][0] == "g" and not ptr[2] and bits_of(ins.ty) == 32:
            g = self.m.globals.get(ptr[1][1]) or {}
            if g.get("tls") and "guard variable" not in g.get("dem", ""): return ("L", ls(self.src("thread number kept per thread")))
        return super().load_mem(st, ins, ptr)

    def threadid(self, st, l): return self.kind(st, l) in ("thread number", "thread number kept per thread")

    # ---- the record being filled
    def mine(self, st, p):
        """the pointer leads into the record being filled"""
        pp = ppath(p)
        return st.auto[2] is not None and has(pp, "RingBuffer.buffer_") and self.same(st, index_of(pp, "RingBuffer.buffer_"), st.auto[2][1]) and \
            (not has(pp, "SHMLogger.ring_buffers_") or self.same(st, index_of(pp, "SHMLogger.ring_buffers_") or ZERO, self.chan))

    def attr(self, p):
        c = self.cls(p)
        return c[8:] if c.startswith("LogData.") and c[8:] in ATTR else None

    def on_load(self, st, ins, p, v):
        a = self.attr(p)
        if a and self.mine(st, p):
            self.hit("attribute reads")
            self.res.check(a in dict(st.auto[0]), self.w + "/stale/" + a, ins.where(), "the attribute %s of a slot is read before this statement stored it: it is that of a former record" % a)

    def on_store(self, st, ins, p, v):
        if p[0] == "P" and p[1][0] == "g" and not p[2] and v[0] == "L":
            g = self.m.globals.get(p[1][1]) or {}
            if g.get("tls") and "guard variable" not in g.get("dem", "") and ins.x.get("vsz", 4) == 4:
                self.hit("thread numbers kept")
                self.res.check(self.kind(st, v[1]) == "thread number", self.w + "/thread-number", ins.where(), "the number kept for a thread is not the number of the running thread")
        a = self.attr(p)
        if not a or not self.mine(st, p): return
        self.hit("attribute stores")
        why = self.judge(st, a, v)
        d = dict(st.auto[0]); d[a] = (why, ins.where())
        st.auto = (tuple(sorted(d.items())),) + st.auto[1:]

    def is_lin(self, st, v, l): return v[0] in ("L", "B", "C") and (self.same(st, self.lin(st, v), l) or self.same(st, self.exact(st, self.lin(st, v)), l))

    def on_call(self, st, ins, name, args):
        if name in ("gettimeofday", "clock_gettime"):
            st.auto = (st.auto[0], True) + st.auto[2:]; self.hit("clock reads")
            for a in args:
                if a[0] == "P": self.clocks.add(a[1])
            return None
        if name in ("time", "std::time") or "system_clock::to_time_t" in name: self.hit("clock reads"); return [(st, ("L", ls(self.src("clock seconds"))))]
        if name == "llvm.threadlocal.address.p0": return [(st, args[0])]
        if name == "syscall" and args and args[0][0] == "L" and args[0][1] == lc(186): return [(st, ("L", ls(self.src("thread number", 0, (1 << 31) - 1))))]
        if name == "gettid": return [(st, ("L", ls(self.src("thread number", 0, (1 << 31) - 1))))]
        if name == "FNLog::HoldChannel": return self.held(st, ins, args)
        if FORMAT.search(name): return None
        return self.string_call(st, ins, name, args)

    def held(self, st, ins, args):
        self.hit("slots held")
        s2 = st.copy()
        i = ls(self.fresh(st, "slot", None, ins, 0, (1 << 31) - 1))
        st.auto = ((), st.auto[1], ("lin", i), None)
        s2.auto = ((), s2.auto[1], None, None)
        return [(st, ("L", i)), (s2, ("L", lc(-1)))]

    def complete(self, st, ins, how):
        d = dict(st.auto[0])
        for a in ATTR:
            v = d.get(a)
            if v is None: self.res.bad("%s/missing/%s" % (self.w, a), ins.where(), "%s: the attribute %s was not stored by this statement; it is that of a former record" % (how, a)); self.res.ok("FAILED " + a)
            else: self.res.check(v[0] is None, "%s/value/%s" % (self.w, a), v[1], "%s: the attribute %s is not %s" % (how, a, v[0]), what="%s: %s stored with its own value" % (self.w, a))


class Ctor(Attrs):
    SIZE = property(lambda self: self.m.field_size("FNLog::LogData", "content_"))

    def begin(self, st):
        A = self.argv
        # (place, logger, channel, priority, category, identify, file, file length, line, function, function length, prefix)
        if len(A) != 12: raise AnalysisError("the constructor of the stream takes other arguments")
        L = lambda i: A[i][1]
        self.chan = L(2)
        self.own = {"channel_id_": L(2), "category_": L(4), "identify_": L(5), "code_file_len_": L(7), "code_line_": L(8), "code_func_len_": L(10)}
        self.ptrs = {"code_file_": A[6], "code_func_": A[9]}
        self.pri = L(3); self.n["constructors"] = 1

    def sym_range(self, st, cls, ins):
        if cls == "LogData.content_len_": return (0, self.SIZE)
        return super().sym_range(st, cls, ins)

    def judge(self, st, a, v):
        if a in self.own: return None if self.is_lin(st, v, self.own[a]) else "the one given to the statement"
        if a in self.ptrs: return None if v == self.ptrs[a] or v[0] == "P" and v[1] == self.ptrs[a][1] and not v[2] else "the one given to the statement"
        l = self.lin(st, v) if v[0] in ("L", "B", "C") else None
        if l is None: return "a number"
        if a == "priority_":
            lo, hi = ladd(self.pri, lc(-self.LOW)), ladd(lc(self.HIGH), self.pri, -1)
            below, above = self.hi(st, self.pri) <= self.LOW, self.lo(st, self.pri) >= self.HIGH
            ok = self.same(st, l, self.pri) and self.prove_ge(st, lo) and self.prove_ge(st, hi) or below and self.same(st, l, lc(self.LOW)) or above and self.same(st, l, lc(self.HIGH))
            return None if ok else "the statement's priority held within the known ones"
        if a == "timestamp_": return None if self.kind(st, l) == "clock seconds" else "the time of the statement"
        if a == "precise_": return None if self.fraction(st, l) else "the milliseconds of the time of the statement"
        if a == "thread_": return None if self.threadid(st, l) else "the number of the running thread"
        return None    # lengths: see done()

    def on_ret(self, st, ins, v):
        rec = None
        for k, x in st.mem.items():
            if k[0] == ("arg", 0) and (kcls(k) == "LogStream.log_data_" or not k[1] and self.m.field_off("FNLog::LogStream", "log_data_") == 0): rec = x
        if rec is None: self.res.bad("ctor/unset", ins.where(), "the statement can end without having set its record"); return
        if rec[0] != "P": return
        if rec[1][0] == "null" or self.decide(st, ("eq", self.plin(st, rec))) is True: self.hit("statements refused"); return
        self.hit("statements accepted")
        self.res.check(self.mine(st, (rec[0], rec[1], rec[2] + (("f", "FNLog::LogData", "x", 0, 4),))) if st.auto[2] is not None else False, "ctor/record", ins.where(), "the statement fills a slot it does not hold")
        self.complete(st, ins, "a statement was accepted")
        ln = self.memlin(st, "LogData.content_len_"); pl = self.memlin(st, "LogData.prefix_len_")
        self.res.check(ln is not None and pl is not None and self.same(st, ln, pl), "ctor/prefix", ins.where(), "the length of the prefix is not the length of the text before the user's own text")


class Transmit(Attrs):
    def begin(self, st):
        A = self.argv
        if len(A) != 5: raise AnalysisError("transmission takes other arguments")
        self.chan = A[1][1]; self.own = {"channel_id_": A[1][1], "category_": A[2][1], "identify_": A[3][1]}
        self.given = A[4][1]

    def field(self, st, a):
        for k, v in st.mem.items():
            if k[0] == self.given and kcls(k) == "LogData." + a: return v
        return None

    def judge(self, st, a, v):
        if a in self.own: return None if self.is_lin(st, v, self.own[a]) else "the one given to the transmission"
        g = self.field(st, a)
        if g is not None and (v == g or v[0] == "L" and g[0] == "L" and self.same(st, v[1], g[1])): return None
        return "that of the transmitted record"

    def on_memop(self, st, ins, kind, args, size):
        p = args[0]
        if kind.startswith(("memcpy", "memmove", "llvm.memcpy", "llvm.memmove")) and p[0] == "P" and self.cls(p) == "LogData.content_" and self.mine(st, p):
            self.hit("texts copied")
            g = self.field(st, "content_len_")
            src, n = args[1], self.lin(st, args[2])
            o1, o2 = self.off(p), self.off(src)
            ok = src[0] == "P" and src[1] == self.given and self.cls(src) == "LogData.content_" and o1 == ZERO and o2 == ZERO and g is not None and g[0] == "L" and self.prove_ge(st, ladd(self.strip(st, n), self.strip(st, g[1]), -1))
            st.auto = st.auto[:3] + (("copied", ok, ins.where()),)

    def off(self, p):
        i = ZERO
        for x, _ in (ppath(p)[-1][1] if ppath(p) else []): i = ladd(i, x)
        return i

    def on_call(self, st, ins, name, args):
        if name in ("FNLog::PushChannel", "FNLog::PushLog"):
            self.hit("records transmitted")
            self.complete(st, ins, "a record is transmitted")
            t = st.auto[3]
            self.res.check(t is not None and t[1], "transmit/text", t[2] if t else ins.where(), "the text of a transmitted record is not copied completely from the start")
            return None
        return super().on_call(st, ins, name, args)


class Input(Attrs):
    """records received from the network: auto[2] is always the input record"""
    def begin(self, st):
        self.chan = [a[1] for a in self.argv if a[0] == "L"][0]
        self.bound_arg(st, [i for i, a in enumerate(self.argv) if a[0] == "L"][0], 0, self.NCHAN - 1)
        st.auto = ((), False, True, None)

    def mine(self, st, p): return has(ppath(p), "RingBuffer.udp_buffer_")
    def on_load(self, st, ins, p, v): pass
    def judge(self, st, a, v):
        l = self.lin(st, v) if v[0] in ("L", "B", "C") else None
        if a == "channel_id_": return None if l is not None and self.same(st, l, self.chan) else "its own channel"
        if a == "priority_": return None if l is not None and self.prove_ge(st, ladd(l, lc(-self.LOW))) and self.prove_ge(st, ladd(lc(self.HIGH), l, -1)) else "a known priority"
        if a == "timestamp_": return None if self.kind(st, l) == "clock seconds" else "the time of receipt"
        if a == "precise_": return None if self.fraction(st, l) else "the milliseconds of the time of receipt"
        if a == "thread_": return None if self.threadid(st, l) else "the number of the running thread"
        return None

    def on_call(self, st, ins, name, args):
        if name.startswith("FNLog::EnterProc") and name.endswith("Device") and any(a[0] == "P" and has(ppath(a), "RingBuffer.udp_buffer_") for a in args):
            self.hit("input records handed on")
            self.complete(st, ins, "a received record is handed on")
            st.auto = ((), st.auto[1], True, None)
            return None
        return super().on_call(st, ins, name, args)


class Front(Base):
    """what a front end passes to the filter and to the constructor"""
    def __init__(self, m, res, pri, zero):
        super().__init__(m); self.res = res; self.pri = pri; self.zero = zero; self.n = {}

    def text(self, p):
        g = self.m.globals.get(p[1][1]) if p[0] == "P" and p[1][0] == "g" and not p[2] else None
        if g and "init" in g and g["init"][0] == "str": return self.cstr_len(g["init"][1]), bytes.fromhex(g["init"][1]).split(b"\0")[0].decode("latin1")
        return None

    def on_call(self, st, ins, name, args):
        w = self.f.name.replace("vroot_", "")
        if name == "FNLog::BlockInput": base = 1
        elif name.endswith("LogStream::LogStream") and len(args) >= 11: base = 2
        else: return None
        num = lambda i: self.lin(st, args[i])
        A = self.argv
        for i, (k, x) in enumerate((("channel", A[0][1]), ("priority", lc(self.pri)), ("category", A[1][1]), ("identify", A[2][1]))):
            if self.zero and k != "priority": x = ZERO
            self.res.check(self.same(st, num(base + i), x), "front/%s/%s" % (w, k), ins.where(), "the front end passes another %s than its own (%s)" % (k, self.linstr(num(base + i))), what="front end passes its own " + k)
        if base == 1: return [(st, ("C", FALSE))]
        self.n["front ends"] = self.n.get("front ends", 0) + 1
        ch = ins.loc() or []
        line = ch[-1][1] if ch else None
        self.res.check(self.same(st, num(8), lc(line)), "front/%s/line" % w, ins.where(), "the front end passes another line than that of the statement (%s instead of %s)" % (self.linstr(num(8)), line))
        for i, k, want in ((6, "file", "fronts.cpp"), (9, "function", self.f.name)):
            t = self.text(args[i])
            self.res.check(t is not None and t[1].split("/")[-1] == want, "front/%s/%s" % (w, k), ins.where(), "the front end passes another %s name than that of the statement" % k)
            self.res.check(t is not None and self.same(st, num(i + 1), lc(t[0])), "front/%s/%s-length" % (w, k), ins.where(), "the front end passes a length that is not that of the %s name" % k)
        return None


def run(res, config):
    tot = {}

    def go(e, f):
        e.run(f); res.fns.add(f.name)
        for k, n in (e.n.items() if isinstance(e.n, dict) else ()): tot[k] = tot.get(k, 0) + n
    m = ctx.module(config, expand=c01.STREAM + (OPEN,), keep=("^FNLog::HoldChannel$",))
    go(Ctor(m, res, "ctor"), m.fn("vroot_stream_ctor"))
    m = ctx.module(config, keep=("^FNLog::HoldChannel$", "^FNLog::PushChannel$"))
    go(Transmit(m, res, "transmit"), m.fn("vroot_transmit"))
    m = ctx.module(config, keep=ctx.DEVICES + ("^FNLog::DispatchLog$",))
    go(Input(m, res, "input"), m.fn("FNLog::EnterProcChannel"))
    m = ctx.module(config, driver="fronts.cpp", keep=("^FNLog::BlockInput$",))
    for f in m.fns_rx(r"^vroot_"):
        _, p, kind = f.name.split("_")
        go(Front(m, res, m.enum("PRIORITY_" + p), kind.endswith("0")), f)
    res.need(tot.get("front ends", 0), "front ends", 56)
    for k in ("statements accepted", "statements refused", "slots held", "attribute stores", "records transmitted", "texts copied", "input records handed on", "thread numbers kept", "clock reads"): res.need(tot.get(k, 0), k)
