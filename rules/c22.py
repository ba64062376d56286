"""C22: what the parser reports is completely initialised, to the documented defaults."""
import ctx
from common import *

EXPLANATION = ("Definite-initialisation analysis at the level of bytes over the parse result (an uninitialised allocation in every caller). Path-sensitive abstract interpretation of the callers finds what they initialise before ParseLogger; "
               "ParseLogger is followed from there: every field it or the lexer reads was written before, the global settings hold their documented defaults when the first line is read, every channel entry holds its defaults (all zero, its number, no virtual device) when its section is read, "
               "and no path returns with a reported field unwritten. The same for the line record in the lexer, for the device entries in ParseChannel and for what ParseDevice does before its first line; callers read of the result of a failed parse only where it failed.")
RULE = "read(f) => written(f) before; at a section's start: entry = documented defaults; at return: every field of the result written"
ASSUMPTIONS = ["lines of a section set only their own fields (C15)", "name_ and desc_ are read up to their lengths only, which ParseString ends (C15)", "a zero integer, enumeration or flag is a field of zero bytes"]

GLOBALS = ("channel_size_", "shm_key_", "hot_update_", "desc_len_", "name_len_")
WHERE = ("line_no_", "current_", "end_", "first_")
I, Z, ENTRY, DIRT, PHASE = range(5)


def add(s, root, lo, hi):
    out = []
    for r, a, b in s:
        if r == root and a <= hi and lo <= b: lo, hi = min(a, lo), max(b, hi)
        else: out.append((r, a, b))
    return tuple(sorted(out + [(root, lo, hi)], key=repr))
def cut(s, root, lo, hi):
    out = []
    for r, a, b in s:
        if r != root or b <= lo or hi <= a: out.append((r, a, b)); continue
        if a < lo: out.append((r, a, lo))
        if hi < b: out.append((r, hi, b))
    return tuple(sorted(out, key=repr))
def has_(s, root, lo, hi): return any(r == root and a <= lo and hi <= b for r, a, b in s)


class Init(Base):
    max_disjuncts = 6; ids_match = False
    def __init__(self, m, res, what, struct, root):
        super().__init__(m); self.res = res; self.what = what; self.root = root; self.n = {}
        self.S = m.struct("FNLog::" + struct); self.size = self.S["size"]
        self.F = {z[0]: (z[1], z[2]) for z in self.S["fields"]}
        self.L = {z[0]: (z[1], z[2]) for z in m.struct("FNLog::LexState")["fields"]}
        self.before = ()
    def setup(self, st): st.auto = (tuple((self.root, a, b) for a, b in self.before), (), None, (), 0)
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def a(self, st, i): return st.auto[i]
    def seta(self, st, i, v): st.auto = st.auto[:i] + (v,) + st.auto[i + 1:]
    def chk(self, c, key, ins, msg): return self.res.check(c, self.what + "/" + key, ins.where(), msg)
    def call_preserves(self, st, ins, name, key): return kcls(key) in ("Channel.device_id_", "Channel.channel_id_", "Device.device_id_", "Channel.virtual_device_id_")
    def off(self, p):
        if p[0] != "P": return None
        return ladd(self.plin(None, p), self.plin(None, ("P", p[1], ())), -1)

    def put(self, st, p, n, zero):
        """n bytes at p are written"""
        o = self.off(p)
        if o is None: return
        if isconst(o) and n is not None and isconst(n):
            lo, hi = o[0], o[0] + n[0]
            self.seta(st, I, add(self.a(st, I), p[1], lo, hi))
            if self.zeroes(st, p): self.seta(st, Z, add(self.a(st, Z), p[1], lo, hi) if zero else cut(self.a(st, Z), p[1], lo, hi))
    def zeroes(self, st, p): return True
    def field(self, s, f, st, i): o, n = f if isinstance(f, tuple) else self.F[f]; return has_(self.a(st, i), s, o, o + n)

    def on_store(self, st, ins, p, v):
        w = ins.x.get("vsz", 8); z = v[0] == "L" and self.same(st, v[1], ZERO) or v == ("P", ("null",), ())
        self.hit("writes"); self.wrote(st, ins, p, lc(w), z, v); self.put(st, p, lc(w), z)
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "store": self.on_store(st, ins, p, vals[0])
    def on_memop(self, st, ins, name, args, n):
        if args[0][0] != "P": return
        z = False
        if "memset" in name: z = self.same(st, self.lin(st, args[1]), ZERO)
        else:
            o = self.off(args[1])
            if o is not None and isconst(o) and isconst(n):
                src = args[1][1]
                if src[0] == "al":
                    if not has_(self.a(st, I), src, o[0], o[0] + n[0]): return          # copies what is not known to be written
                    z = has_(self.a(st, Z), src, o[0], o[0] + n[0])
                elif src[0] == "g": z = self.zeros(args[1], n[0])
        self.hit("writes"); self.wrote(st, ins, args[0], n, z, None); self.put(st, args[0], n, z)
    def zeros(self, p, n):
        g = self.m.globals.get(p[1][1]) if hasattr(self.m, "globals") else None
        return bool(g) and g.get("init") in (["z"], ["n"], "zero")
    def wrote(self, st, ins, p, n, zero, v): pass
    def on_load(self, st, ins, p, v):
        if p[0] != "P" or p[1] != self.root: return
        o = self.off(p); w = (bits_of(ins.ty) or 64) // 8 or 1
        if o is None or not isconst(o): return
        self.hit("reads"); f = next((k for k, (a, n) in self.F.items() if a <= o[0] < a + n), "?")
        self.chk(has_(self.a(st, I), self.root, o[0], o[0] + w), "read/" + f, ins, "%s is read before it is given a value" % f)
    def entry_ok(self, st, ins, p, size, marks, whole, what):
        """an entry of channels_ / devices_ when its section is read"""
        o = self.off(p); e = self.a(st, ENTRY)
        mine = e is not None and o is not None and e[0] == p[1] and self.same(st, e[1][1], o)
        self.chk(mine or whole, "entry/" + what, ins, "the section of a %s is read into an entry that was not cleared: what the text leaves out has no defined value" % what)
        bad = [d for d in self.a(st, DIRT) if d not in marks]
        self.chk(not bad, "default/" + what, ins, "a %s starts with %s different from the documented default" % (what, ", ".join(map(str, bad))))
        self.hit("entries"); self.seta(st, DIRT, ()); self.seta(st, ENTRY, None)
    def dirty(self, st, p, n, zero, struct, size):
        """an entry is cleared, or written"""
        o = self.off(p)
        if zero and n is not None and isconst(n) and n[0] >= size and o is not None: self.seta(st, ENTRY, (p[1], ("lin", o))); self.seta(st, DIRT, ()); return
        pp = ppath(p); c = pp[-1][0] if pp else struct + ".?"
        if not zero: self.seta(st, DIRT, tuple(sorted(set(self.a(st, DIRT)) | {c})))


class Logger_(Init):
    def __init__(self, m, res): super().__init__(m, res, "parse", "LexState", ("arg", 0)); self.CH = m.struct("FNLog::Channel")["size"]
    def zeroes(self, st, p): return not self.a(st, PHASE) or p[1] != self.root or has(ppath(p), "LexState.channels_")
    def chans(self, p): return has(ppath(p), "LexState.channels_") and len([f for f, i in ppath(p)]) and index_of(ppath(p), "LexState.channels_") is not None
    def wrote(self, st, ins, p, n, zero, v):
        if p[1] == self.root and self.chans(p): self.dirty(st, p, n, zero, "Channel", self.CH)
    def on_call(self, st, ins, name, args):
        if name == "FNLog::Lex":
            for f in ("current_", "end_", "line_no_"): self.chk(self.field(self.root, f, st, I), "lex/" + f, ins, "a line is read before %s is given a value" % f)
            if not self.a(st, PHASE):
                for f in GLOBALS: self.chk(self.field(self.root, f, st, I) and self.field(self.root, f, st, Z), "default/" + f, ins, "%s is not at its documented default (0, false, empty) when the first line is read" % f); self.hit("defaults")
                self.seta(st, PHASE, 1); o, n = self.L["channels_"]
                self.seta(st, Z, tuple(x for x in self.a(st, Z) if x[0] == self.root and x[1] <= o and o + n <= x[2]))
            self.put(st, ("P", self.root, args[0][2] + (("f", "FNLog::LexState", "line_") + self.L["line_"],)), lc(self.L["line_"][1]), False)
        elif name == "FNLog::ParseChannel":
            o, n = self.L["channels_"]; whole = has_(self.a(st, Z), self.root, o, o + n)
            self.entry_ok(st, ins, args[1], self.CH, ("Channel.channel_id_", "Channel.virtual_device_id_"), whole, "channel")
            v = self.memlin(st, "Channel.virtual_device_id_")
            self.chk(v is not None and self.same(st, v, lc(-1)), "default/virtual", ins, "a channel starts with a virtual device although it has none")
        elif name == "FNLog::ParseString" and len(args) > 4: self.put(st, args[4], lc(4), False)
        return None
    def on_ret(self, st, ins, v):
        self.hit("returns"); r = self.lin(st, v)
        for f in WHERE: self.chk(self.field(self.root, f, st, I), "result/" + f, ins, "ParseLogger returns without %s having a value" % f)
        if self.differ(st, r, ZERO): return
        for f in GLOBALS: self.chk(self.field(self.root, f, st, I), "result/" + f, ins, "ParseLogger returns without %s having a value" % f)


class Lexer(Init):
    """every field of the line at hand is written before it is read and when the lexer returns"""
    def __init__(self, m, res):
        super().__init__(m, res, "lex", "LexState", ("arg", 0)); o, n = self.L["line_"]; self.before = ((0, o), (o + n, self.size))
        self.line = [(z[0], o + z[1], z[2]) for z in m.struct("FNLog::Line")["fields"]]
    def zeroes(self, st, p): return False
    def on_ret(self, st, ins, v):
        self.hit("returns")
        for f, o, n in self.line: self.chk(has_(self.a(st, I), self.root, o, o + n), "result/" + f, ins, "the lexer returns without the line's %s having a value" % f)


class Chan(Init):
    """device entries in ParseChannel; what is set before the first line of a section"""
    def __init__(self, m, res, what, struct): super().__init__(m, res, what, struct, ("arg", 1)); self.DV = m.struct("FNLog::Device")["size"]
    before = ()
    def setup(self, st): super().setup(st); self.seta(st, I, add((), self.root, 0, self.size))
    def wrote(self, st, ins, p, n, zero, v):
        if p[1] != self.root: return
        pp = ppath(p)
        if self.what == "channel" and index_of(pp, "Channel.devices_") is not None: self.dirty(st, p, n, zero, "Device", self.DV); return
        if not self.a(st, PHASE):
            c = pp[-1][0] if pp else "?"; l = self.lin(st, v) if v is not None and v[0] in ("L", "C", "B") else None
            self.chk(zero or l is not None and c == "Channel.virtual_device_id_" and self.same(st, l, lc(-1)), "default/" + c, ins, "%s is set to something else than its documented default before the section is read" % c)
    def on_call(self, st, ins, name, args):
        if name == "FNLog::Lex": self.seta(st, PHASE, 1); self.hit("lines")
        elif name == "FNLog::ParseDevice" and self.what == "channel":
            self.entry_ok(st, ins, args[1], self.DV, ("Device.device_id_",), True, "device")     # (cleared with its channel, or again)
        return None


class Caller(Base):
    """what a caller initialises before it parses, and what it reads afterwards"""
    max_disjuncts = 6; ids_match = False
    def __init__(self, m, res): super().__init__(m); self.res = res; self.n = {}; self.init = None; self.SZ = m.struct("FNLog::LexState")["size"]; self.F = {z[0]: (z[1], z[2]) for z in m.struct("FNLog::LexState")["fields"]}
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st): st.auto = ((), None)       # fields written, code of the parse
    def call_preserves(self, st, ins, name, key): return True
    def fld(self, p):
        if p[0] != "P": return None
        return next((s[2] for s in p[2] if s[0] == "f" and s[1].endswith("LexState")), None)
    def put(self, st, fs): st.auto = (tuple(sorted(set(st.auto[0]) | set(fs))), st.auto[1])
    def on_store(self, st, ins, p, v):
        f = self.fld(p)
        if f and ins.x.get("vsz", 0) == self.F[f][1]: self.put(st, [f])
    def on_memop(self, st, ins, name, args, n):
        if "memset" in name and isconst(n):
            f = self.fld(args[0])
            if n[0] == self.SZ: self.put(st, self.F)
            elif f and n[0] == self.F[f][1]: self.put(st, [f])
        if "memset" not in name: self.read(st, ins, self.fld(args[1]))
    def on_call(self, st, ins, name, args):
        if name == "FNLog::ParseLogger":
            self.hit("parses"); self.init = set(st.auto[0]) if self.init is None else self.init & set(st.auto[0])
            r = ls(self.fresh(st, "parsed", None, ins, -(1 << 31), (1 << 31) - 1)); st.auto = (st.auto[0], ("lin", r))
            return [(st, ("L", r))]
        return None
    def on_load(self, st, ins, p, v): self.read(st, ins, self.fld(p))
    def read(self, st, ins, f):
        if not f: return
        self.hit("reads"); r = st.auto[1]
        ok = r is not None and (f in WHERE or self.same(st, r[1], ZERO)) or f in st.auto[0]
        self.res.check(ok, "use/" + f, ins.where(), "%s of the parse result is read %s" % (f, "before the text is parsed" if r is None else "although the parse failed"))


def run(res, config):
    for e in ("PRIORITY_TRACE", "CHANNEL_ASYNC", "DEVICE_OUT_NULL", "DEVICE_IN_NULL"):
        m = ctx.module(config)
        res.check(m.enum(e) == 0, "zero/" + e, "fn_data.h", "%s is the documented default, but a cleared entry has another value" % e)
    m = ctx.module(config, expand=("^FNLog::HotUpdateLogger$", "^FNLog::InitFromYMAL(File)?$"))
    init = None
    for root, fn in (("vroot_init_text", "FNLog::InitFromYMAL"), ("vroot_hot_update", "FNLog::HotUpdateLogger")):
        e = Caller(m, res); f = m.fn(root); e.run(f); res.fns.add(fn)
        res.need(e.n.get("parses", 0), "parses in " + fn); res.need(e.n.get("reads", 0), "reads of the result in " + fn)
        for k, n in e.n.items(): res.count(k, n)
        init = e.init if init is None else init & e.init
    m = ctx.module(config)
    e = Logger_(m, res); e.before = tuple(e.L[f] for f in init or ()); e.before = tuple((o, o + n) for o, n in e.before)
    f = m.fn("FNLog::ParseLogger"); e.run(f); res.fns.add(f.name)
    for k, x in (("reads", 5), ("entries", 1), ("defaults", len(GLOBALS)), ("returns", 2)): res.need(e.n.get(k, 0), k + " of ParseLogger", x)
    e = Lexer(m, res); f = m.fn("FNLog::Lex"); e.run(f); res.fns.add(f.name)
    res.need(e.n.get("returns", 0), "returns of Lex", 2); res.need(e.n.get("reads", 0), "reads of Lex", 5)
    for what, fn, s in (("channel", "FNLog::ParseChannel", "Channel"), ("device", "FNLog::ParseDevice", "Device")):
        e = Chan(m, res, what, s); f = m.fn(fn); e.run(f); res.fns.add(f.name)
        res.need(e.n.get("lines", 0), "lines of " + fn)
        if what == "channel": res.need(e.n.get("entries", 0), "device entries")
