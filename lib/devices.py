"""One record handed to one device, path by path (used by C12, C20, C24).
auto = (events, handle state, kind, extra): events = sorted ((event, count), ...); handle state "?" | "open" | "closed" (of the device's file or socket);
kind = kind of the device once the path has decided it"""
from common import *

FILEH = re.compile(r"^FNLog::FileHandler::(~?\w+)$")
UDPH = re.compile(r"^UDPHandler::(~?\w+)$")
PRINT = re.compile(r"^(printf|puts|putchar|vprintf|fputs|fputc|fwrite|fprintf|vfprintf|write|std::operator<<.*|std::basic_ostream<.*)$")
PURE = ("is_dir", "create_dir", "time_to_tm", "process_name", "process_id", "rollback", "is_file", "remove_file", "rename_file", "short_path", "remove_dir", "file_size")


class DevPath(Base):
    """analyses the function that hands a record to a device: arguments logger, channel number, device number, record"""
    max_disjuncts = 2
    widen_after = 3

    def __init__(self, m, res, w):
        super().__init__(m); self.res = res; self.w = w; self.n = {}
        e = m.enum
        self.KINDS = {e("DEVICE_OUT_" + x): x for x in ("SCREEN", "FILE", "UDP", "EMPTY", "VIRTUAL", "NULL")}
        self.LOG = {e("DEVICE_LOG_" + x): x for x in ("CUR_FILE_SIZE", "CUR_FILE_CREATE_TIMESTAMP", "CUR_FILE_CREATE_DAY", "CUR_FILE_CREATE_HOUR", "LAST_TRY_CREATE_TIMESTAMP",
                                                       "LAST_TRY_CREATE_ERROR", "LAST_TRY_CREATE_CNT", "TOTAL_WRITE_LINE", "TOTAL_WRITE_BYTE", "TOTAL_LOSE_LINE")}
        self.PRI = e("DEVICE_LOG_PRIORITY")
        self.CFG = {x: e("DEVICE_CFG_" + x) for x in ("FILE_LIMIT_SIZE", "FILE_ROLLBACK", "FILE_ROLLDAILY", "FILE_ROLLHOURLY", "FILE_STUFF_UP")}

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def stable_atomic(self, cls): return cls == "Channel.device_log_fields_" or super().stable_atomic(cls)
    def call_preserves(self, st, ins, name, key): return kcls(key) == "Channel.device_log_fields_" or super().call_preserves(st, ins, name, key)

    def setup(self, st):
        ii = [a[1] for a in self.argv if a[0] == "L"]; pp = [i for i, a in enumerate(self.argv) if a[0] == "P"]
        if len(ii) < 2 or len(pp) < 2: raise AnalysisError("the writer of a device takes other arguments: %s" % self.f.name)
        self.ch, self.dev = ii[0], ii[1]; self.log = ("arg", pp[-1])
        ai = [i for i, a in enumerate(self.argv) if a[0] == "L"]
        self.bound_arg(st, ai[0], 0, self.NCHAN - 1); self.bound_arg(st, ai[1], 0, self.NDEV - 1)
        st.auto = ((), "?", None, self.start())

    def start(self): return None

    # auto helpers
    def ev(self, st, name, n=1):
        d = dict(st.auto[0]); d[name] = min(d.get(name, 0) + n, 3)
        st.auto = (tuple(sorted(d.items())),) + st.auto[1:]
        self.hit(name)
    def count(self, st, name): return dict(st.auto[0]).get(name, 0)
    def put(self, st, i, v): st.auto = st.auto[:i] + (v,) + st.auto[i + 1:]

    # values
    def mine(self, pp):
        c = index_of(pp, "SHMLogger.channels_"); d = index_of(pp, "Channel.devices_")
        return c, d
    def cfg(self, st, name):
        def ok(p):
            ix = index_of(p, "Device.config_fields_")
            c, d = self.mine(p)
            return ix is not None and isconst(ix) and ix[0] == self.CFG[name] and (c is None or self.same(st, c, self.ch)) and (d is None or self.same(st, d, self.dev))
        return self.memlin(st, "Device.config_fields_", ok)
    def rec(self, st, name):
        for k, v in st.mem.items():
            if k[0] == self.log and kcls(k) == "LogData." + name and v[0] == "L": return v[1]
        return None
    def kind(self, st):
        if st.auto[2] is not None: return st.auto[2]
        t = self.memlin(st, "Device.out_type_", lambda p: (self.mine(p)[0] is None or self.same(st, self.mine(p)[0], self.ch)) and (self.mine(p)[1] is None or self.same(st, self.mine(p)[1], self.dev)))
        if t is None: return None
        for v, x in self.KINDS.items():
            if self.decide(st, ("eq", ladd(t, lc(-v)))) is True: return x
        if all(self.decide(st, ("eq", ladd(t, lc(-v)))) is False for v, x in self.KINDS.items() if x in ("SCREEN", "FILE", "UDP", "EMPTY")): return "other"
        return None

    def on_branch(self, st, ins, cond, taken):
        k = self.kind(st)
        if k != st.auto[2]: self.put(st, 2, k)
        self.look(st)

    def look(self, st): pass

    def hindex(self, st, p):
        pp = ppath(p)
        for f in ("Logger.file_handles_", "Logger.udp_handles_"):
            ix = index_of(pp, f)
            if ix is not None: return f, ix
        return None, None

    def text_of_record(self, a, field="content_"):
        return a[0] == "P" and a[1] == self.log and any(f == "LogData." + field for f, _ in ppath(a))

    def on_call(self, st, ins, name, args):
        fm = FILEH.match(name); um = UDPH.match(name)
        if (fm or um) and args:
            meth = (fm or um).group(1)
            if meth in PURE: return None
            f, ix = self.hindex(st, args[0])
            if f is None: return None
            self.handle(st, ins, "file" if fm else "udp", meth, ix, args)
            if meth == "is_open":
                if st.auto[1] == "?":
                    s2 = st.copy(); self.put(st, 1, "open"); self.put(s2, 1, "closed")
                    return [(st, ("C", TRUE)), (s2, ("C", FALSE))]
                return [(st, ("C", TRUE if st.auto[1] == "open" else FALSE))]
            if meth == "open":
                self.put(st, 1, "?"); self.ev(st, "open")
                if ins.ty != "void" and bits_of(ins.ty): 
                    v = self.opaque(st, ins, "opened"); self.opened(st, ins, v); return [(st, v)]
                return [(st, None)]
            if meth == "close": self.put(st, 1, "closed"); self.ev(st, "close"); self.closed(st, ins); return None
            if meth == "write":
                self.ev(st, "write")
                if bits_of(ins.ty):
                    v = self.opaque(st, ins, "sent"); self.wrote(st, ins, v)
                    if um:
                        s2 = st.copy(); out = []
                        for s, c, nm in ((st, ("ge", ladd(v[1], lc(-1))), "sent"), (s2, ("ge", lneg(v[1])), "failed")):
                            try: self.assume(s, c); self.ev(s, nm); out.append((s, v))
                            except Infeasible: pass
                        return out
                    return [(st, v)]
                self.wrote(st, ins, None)
                if fm and st.auto[1] == "open":       # a write that fails closes the file
                    s2 = st.copy(); self.put(s2, 1, "closed"); self.ev(s2, "failed")
                    return [(st, None), (s2, None)]
                return None
            return None
        if PRINT.match(name) and self.kind(st) == "SCREEN" or PRINT.match(name) and any(self.text_of_record(a) for a in args):
            if any(self.text_of_record(a) for a in args): self.ev(st, "screen"); self.screen(st, ins, args)
        return None

    def on_atomic(self, st, ins, kind, p, vals, res):
        pp = ppath(p)
        if has(pp, "Channel.device_log_fields_"):
            ix = [i for f, x in pp if f == "Channel.device_log_fields_" for i, *_ in x]
            c = index_of(pp, "SHMLogger.channels_") or ZERO
            if len(ix) > 2: ix = ix[:2]
            if len(ix) == 2: d, e = ix
            elif len(ix) == 1:
                d, e = (ix[0], ZERO)
            else: d, e = ZERO, ZERO
            if kind == "rmw" and vals[0] in ("add", "sub"):
                amt = self.lin(st, vals[1]); amt = lneg(amt) if vals[0] == "sub" else amt
                self.counter(st, ins, c, d, e, amt)
            elif kind == "store" or kind == "rmw": self.setlog(st, ins, c, d, e, vals[-1])

    def which(self, st, e):
        if isconst(e): return self.LOG.get(e[0])
        return None

    # hooks
    def handle(self, st, ins, what, meth, ix, args): pass
    def opened(self, st, ins, v): pass
    def closed(self, st, ins): pass
    def wrote(self, st, ins, v): pass
    def screen(self, st, ins, args): pass
    def counter(self, st, ins, c, d, e, amt): pass
    def setlog(self, st, ins, c, d, e, v): pass


def writer(m):
    return m.fn("FNLog::EnterProcDevice")
