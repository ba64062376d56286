"""C16: a hot update changes settings only, completely, and never what is in use."""
import ctx
from locks import *

EXPLANATION = ("Path-sensitive abstract interpretation of HotUpdateLogger: every store, copy and counter update it makes into the logger or its storage is compared with the set of things a hot update may change, in its own channel only; "
               "settings change only under the state lock, with the logger known to be running, hot updates known to be enabled and the text known to have been parsed without error and to have the channel; every value comes from the same channel, device and field of the parsed text; "
               "a new device is copied completely before the number of devices makes it visible; a path that changes anything goes through every field of the channel and every device of the text, and a path that changes nothing has a reason for it.")
RULE = "effect in {own channel's settings, devices' settings, new device at the end, number of devices + 1 after its copy, own bookkeeping}; conditions known at each; sweeps over fields and devices complete at the exit"
ASSUMPTIONS = ["a channel's and a device's number in a parsed text and in the logger is its position (parser: C13)", "ParseLogger writes to its result only", "a std:: call does not fail for want of memory"]

(EXCUSE, ENABLED, PARSED, CHANGED, HOT, F, D, DF, NEW, NOW, LAST, RUN) = range(12)
LST = "Logger.logger_state_"


class Update(Locks):
    max_disjuncts = 6
    sizes_known = True
    loop_unroll = 0

    def __init__(self, m, res):
        super().__init__(m, res, "update")
        e = m.enum
        self.RUNNING = e("LOGGER_STATE_RUNNING")
        self.CHK, self.CHG = e("CHANNEL_LOG_HOTUPDATE_CHECK"), e("CHANNEL_LOG_HOTUPDATE_CHANGE")
        self.NCF, self.NDF = e("CHANNEL_CFG_MAX_ID"), e("DEVICE_CFG_MAX_ID")
        self.CSZ, self.DSZ = m.field_size("FNLog::Channel", "config_fields_"), m.field_size("FNLog::Device", "config_fields_")
        self.DEV = m.struct("FNLog::Device")["size"]

    def setup(self, st):
        none = ("lin", lc(-1))
        st.auto = ((), (), (False, False, None, False, False, None, None, None, None, None, None, False))
        self.ch = self.argv[1][1]
    def x(self, st, i): return st.auto[2][i]
    def setx(self, st, i, v): e = st.auto[2]; st.auto = st.auto[:2] + (e[:i] + (v,) + e[i + 1:],)
    def volatile(self, cls): return cls == LST
    def sym_range(self, st, cls, ins):
        if cls.endswith(".hot_update_"): return (0, 1)      # a bool
        return super().sym_range(st, cls, ins)
    def locked(self, st): return any(h[0] == "Logger.state_lock_" for h in st.auto[0])
    def call_preserves(self, st, ins, name, key):
        c = kcls(key)
        return c.startswith("LexState.") or c in ("Channel.device_size_", "Channel.last_hot_check_", "Channel.yaml_mtime_") or super().call_preserves(st, ins, name, key)
    def chk(self, cond, key, ins, msg): return self.res.check(cond, key, ins.where(), msg)

    # which side a path leads to
    def side(self, pp):
        if has(pp, "LexState.channels_") or any(f.startswith("LexState.") for f, _ in pp): return "text"
        if any(f.startswith(("SHMLogger.", "Logger.", "RingBuffer.")) for f, _ in pp): return "logger"
        if any(f.startswith(("Channel.", "Device.")) for f, _ in pp): return "logger?"
        return None
    def chan(self, pp): return index_of(pp, "SHMLogger.channels_" if has(pp, "SHMLogger.channels_") else "LexState.channels_")
    def mem(self, st, cls, side): return self.memlin(st, cls, lambda p: self.side(p) == side)

    # ---- reasons to change nothing
    def settle(self, st):
        why = False
        n = self.mem(st, "SHMLogger.channel_size_", "logger")
        if n is not None and self.prove_ge(st, ladd(self.ch, n, -1)): why = True
        if self.decide(st, ("ge", lneg(ladd(self.ch, lc(1))))) is True: why = True
        h = self.mem(st, "Logger.hot_update_", "logger")
        if h is not None and not self.x(st, HOT):
            if self.same(st, h, ZERO): why = True
            elif self.decide(st, ("ne", h)) is True: self.setx(st, ENABLED, True)
        a, b = self.x(st, NOW), self.x(st, LAST)
        if a and b and self.prove_ge(st, ladd(lc(86400), ladd(a[1], b[1], -1), -1)): why = True
        t, r = self.memlin(st, "stat.st_mtim"), self.mem(st, "Channel.yaml_mtime_", "logger")
        if t is not None and r is not None and self.same(st, t, r): why = True
        r = self.x(st, RUN)
        if r and self.differ(st, r[1], lc(self.RUNNING)): why = True
        p = self.x(st, PARSED)
        if p and self.differ(st, p[1], ZERO): why = True
        n = self.mem(st, "LexState.channel_size_", "text")
        if n is not None and self.prove_ge(st, ladd(self.ch, n, -1)): why = True
        if any(g[1] == "Logger.state_lock_" and not g[3] for g in st.auto[1]) and not self.locked(st): why = True
        if why and not self.x(st, CHANGED): self.setx(st, EXCUSE, True)
        self.ends(st)

    # ---- sweeps over the fields and devices: ("at" counting up | "at-" counting down, position, False | "some" | True)
    def upto(self, st, i):
        return lc(self.NCF if i == F else self.NDF) if i != D else self.mem(st, "Channel.device_size_", "text")

    def at(self, st, i, n, ok):
        s = self.x(st, i)
        if s in ("done", "lost"): return
        if s and self.same(st, s[1][1], n): self.setx(st, i, (s[0], ("lin", n), True if True in (s[2], ok) else s[2] or ok)); return
        good = s and s[2] is True; end = self.upto(st, i)
        if good and s[0] == "at" and self.same(st, ladd(s[1][1], lc(1)), n) or self.same(st, n, ZERO) and not (good and s[0] == "at-"): self.setx(st, i, ("at", ("lin", n), ok)); return
        if i != D and (good and s[0] == "at-" and self.same(st, ladd(s[1][1], lc(-1)), n) or self.same(st, ladd(n, lc(1)), end)): self.setx(st, i, ("at-", ("lin", n), ok)); return
        self.setx(st, i, "lost")

    def exists(self, st, d, have):
        """the device is known to be visible"""
        s = self.x(st, D)
        return have is not None and self.prove_ge(st, ladd(ladd(have, lc(-1)), d, -1)) or isinstance(s, tuple) and s[2] and self.same(st, s[1][1], d)

    def follows(self, st, d, have):
        """every device before d is known to be visible"""
        s = self.x(st, D)
        return self.same(st, d, have) or self.prove_ge(st, ladd(d, have, -1)) and (self.same(st, d, ZERO) or isinstance(s, tuple) and s[2] is True and self.same(st, ladd(s[1][1], lc(1)), d))

    def ends(self, st):
        s = self.x(st, D); have = self.mem(st, "Channel.device_size_", "logger")
        if isinstance(s, tuple) and s[2] and self.x(st, NEW) is None and have is not None and self.prove_ge(st, ladd(s[1][1], have, -1)): raise Infeasible     # that device exists by now
        for i in (F, D, DF):
            s = self.x(st, i); end = self.upto(st, i)
            if end is None: continue
            if isinstance(s, tuple) and s[2] is True and (self.same(st, s[1][1], ZERO) if s[0] == "at-" else self.prove_ge(st, ladd(ladd(s[1][1], lc(1)), end, -1))): self.setx(st, i, "done")
            if s is None and self.prove_ge(st, lneg(end)): self.setx(st, i, "done")
        s = self.x(st, D)
        if self.x(st, DF) == "done" and isinstance(s, tuple) and s[2] == "some": self.setx(st, D, s[:2] + (True,)); self.setx(st, DF, None)

    def may_alias(self, st, a, b):
        x, y = self.side(parse(a[1])), self.side(parse(b[1]))
        if "text" in (x, y) and x != y and None not in (x, y): return False
        return super().may_alias(st, a, b)

    # ---- effects
    old = None
    def step(self, st, ins):
        if ins.op == "store": self.old = self.mem(st, "Channel.device_size_", "logger")
        return super().step(st, ins)

    def content(self, st, ins, what):
        self.hit("settings changed"); self.settle(st)
        self.chk(self.locked(st), "unlocked/" + what, ins, "a hot update changes %s without the state lock" % what)
        r = self.x(st, RUN)
        self.chk(r and self.same(st, r[1], lc(self.RUNNING)), "not-running/" + what, ins, "a hot update changes %s although the logger is not known to be running" % what)
        p = self.x(st, PARSED)
        self.chk(p and self.same(st, p[1], ZERO), "unparsed/" + what, ins, "a hot update changes %s although the text is not known to have been parsed without error" % what)
        self.chk(self.x(st, ENABLED), "disabled/" + what, ins, "a hot update changes %s although hot updates are not known to be enabled" % what)
        n = self.mem(st, "LexState.channel_size_", "text")
        self.chk(n is not None and self.prove_ge(st, ladd(ladd(n, lc(-1)), self.ch, -1)), "channel-gone/" + what, ins, "a hot update changes %s although the text is not known to have the channel" % what)
        self.setx(st, CHANGED, True)

    def source(self, st, v, pp):
        """does v come from the text, from the same place?"""
        want = [(f, ix) for f, ix in pp if not f.startswith(("SHMLogger.", "Logger."))]
        for k, w in st.mem.items():
            if kcls(k) != pp[-1][0]: continue
            q = parse(k[1])
            if self.side(q) == "text" and self.samepath(st, pp, q) and (w == v or w[0] == "L" and v[0] == "L" and self.same(st, w[1], v[1])): return True
        if v[0] == "L" and len(v[1][1]) == 1 and not v[1][0]:
            d = self.syms[v[1][1][0][0]].data
            if d and isinstance(d, tuple) and len(d) == 3 and d[2] and d[2][0] == "P":
                q = ppath(d[2])
                return self.side(q) == "text" and self.samepath(st, pp, q)
        return False

    def samepath(self, st, a, b):
        """the same channel, device and field on both sides"""
        for f in ("channels_", "Channel.devices_", "Channel.config_fields_", "Device.config_fields_"):
            x, y = (self.chan(a), self.chan(b)) if f == "channels_" else (index_of(a, f), index_of(b, f))
            if (x is None) != (y is None) or x is not None and not self.same(st, x, y): return False
        return a[-1][0] == b[-1][0]

    def device(self, st, ins, pp):
        d = index_of(pp, "Channel.devices_")
        n = self.mem(st, "Channel.device_size_", "logger")
        return d, n

    def load_mem(self, st, ins, ptr):
        if ptr[0] == "P" and bits_of(ins.ty) == 32 and self.cls(ptr) == "Channel.channel_id_" and has(ppath(ptr), "LexState.channels_"):
            return ("L", index_of(ppath(ptr), "LexState.channels_"))
        return super().load_mem(st, ins, ptr)

    def touched(self, st, ins, p, v=None, size=None, src=None):
        """a store of v, or a copy of size bytes from src, to p"""
        if p[0] != "P": return
        pp = ppath(p); side = self.side(pp)
        if side in (None, "text"):
            return
        c = pp[-1][0]; self.hit("effects")
        if c == "Logger.hot_update_":
            self.content(st, ins, "hot_update_")
            self.chk(v is not None and any(kcls(k) == "LexState.hot_update_" and (w == v or w[0] == "L" and (v[0] == "L" and self.same(st, w[1], self.strip(st, v[1])) or v[0] == "B" and v[1] == ("ne", w[1]))) for k, w in st.mem.items()), "value/hot_update_", ins, "a hot update sets whether hot updates are enabled to something else than what the text says")
            self.setx(st, HOT, True); return
        n = self.chan(pp)
        name = c.split(".")[-1]
        if not self.chk(n is not None and self.same(st, n, self.ch), "other/" + c, ins, "a hot update changes %s, which does not belong to its own channel" % c): return
        if c == "Channel.last_hot_check_":
            self.chk(v is not None and self.x(st, NOW) and v[0] == "L" and self.same(st, v[1], self.x(st, NOW)[1]), "value/last_hot_check_", ins, "the time of the last check is set to something else than now"); return
        if c == "Channel.yaml_mtime_":
            t = self.memlin(st, "stat.st_mtim")
            self.chk(v is not None and v[0] == "L" and t is not None and self.same(st, v[1], t), "value/yaml_mtime_", ins, "the remembered modification time is not the one of the file read: a later change can be missed"); self.setx(st, CHANGED, True); return
        if c == "Channel.device_size_":
            self.content(st, ins, "device_size_")
            nw = self.x(st, NEW)
            self.chk(v is not None and nw and v[0] == "L" and self.same(st, v[1], nw[1]), "visible/device_size_", ins, "a hot update makes a device visible that it has not completely copied before")
            self.setx(st, NEW, None); return
        d, have = self.device(st, ins, pp)
        if c in ("Channel.config_fields_", "Device.config_fields_"):
            self.content(st, ins, c)
            if d is not None:
                if not self.exists(st, d, have): self.chk(False, "place/" + c, ins, "a hot update changes settings of a device that is not known to exist"); return
            if size is None:
                ix = index_of(pp, c)
                self.chk(self.source(st, v, pp), "value/" + c, ins, "a hot update sets a setting to something else than the same channel's, device's and field's value in the text")
                if d is None: self.at(st, F, ix, True)
                else:
                    b = self.x(st, D)
                    self.at(st, D, d, "some")
                    if not (isinstance(b, tuple) and self.same(st, b[1][1], d)): self.setx(st, DF, None)
                    self.at(st, DF, ix, True); self.ends(st)
            else:
                whole = lc(self.CSZ if d is None else self.DSZ)
                sp = ppath(src) if src and src[0] == "P" else []
                exact = not pp[-1][1] or self.same(st, index_of(pp, c), ZERO)
                self.chk(exact and self.same(st, size, whole), "size/" + c, ins, "a hot update copies more or less than the settings")
                self.chk(bool(sp) and self.side(sp) == "text" and self.samepath(st, [(f, [] if f == c else ix) for f, ix in pp], [(f, [] if f == c else ix) for f, ix in sp]), "value/" + c, ins, "a hot update copies settings from somewhere else than the same channel and device of the text")
                if self.same(st, size, whole):
                    if d is None: self.setx(st, F, "done")
                    else: self.at(st, D, d, True)
            return
        if c == "Channel.devices_":
            self.content(st, ins, "devices_")
            nw = self.x(st, NEW)
            base = nw[1] if nw else have
            self.chk(d is not None and base is not None and (self.same(st, d, base) or not nw and self.follows(st, d, base)), "new/devices_", ins, "a hot update overwrites a device that may be in use, or leaves a gap before a new one")
            sp = ppath(src) if src and src[0] == "P" else []
            ok = size is not None and self.same(st, size, lc(self.DEV)) and bool(sp) and self.side(sp) == "text" and self.samepath(st, pp, sp)
            self.chk(ok, "copy/devices_", ins, "a new device is not copied completely from the same device of the text")
            if ok: self.setx(st, NEW, ("lin", ladd(d, lc(1)))); self.at(st, D, d, True)
            return
        # a field of a device that is not visible yet
        if d is not None and have is not None and self.prove_ge(st, ladd(d, have, -1)):
            self.content(st, ins, "a new device"); return
        self.chk(False, "effect/" + c, ins, "a hot update changes %s, which is no setting" % c)

    def on_store(self, st, ins, p, v): self.touched(st, ins, p, v=v)
    def on_memop(self, st, ins, name, args, n):
        self.touched(st, ins, args[0], size=n, src=None if "memset" in name else args[1])
    def on_load(self, st, ins, p, v):
        c = self.cls(p)
        if c == LST and v[0] == "L": self.setx(st, RUN, ("lin", v[1]))
        if c == "Channel.last_hot_check_" and v[0] == "L": self.setx(st, LAST, ("lin", v[1]))
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "load": self.on_load(st, ins, p, res); return
        if kind == "store": self.touched(st, ins, p, v=vals[0]); return
        pp = ppath(p)
        if pp and pp[-1][0] == "Channel.channel_log_fields_" and kind == "rmw" and vals[0] in ("add", "sub"):
            self.hit("effects"); ix = index_of(pp, "Channel.channel_log_fields_"); n = self.chan(pp)
            ok = n is not None and self.same(st, n, self.ch) and isconst(ix) and ix[0] in (self.CHK, self.CHG) and vals[0] == "add" and self.same(st, self.lin(st, vals[1]), lc(1))
            self.chk(ok, "counter/%s" % (ix[0] if isconst(ix) else "?"), ins, "a hot update changes a counter other than its own two, or by something else than one")
            return
        self.touched(st, ins, p)

    # ---- calls
    def on_branch(self, st, ins, cond, taken):
        try: self.settle(st)
        except Infeasible: return False
    def acquire(self, st, ins, cls, ix, blocking, recursive):
        if cls == "Logger.state_lock_" and not self.locked(st): self.setx(st, RUN, None)
        super().acquire(st, ins, cls, ix, blocking, recursive)
    def fork(self, st, why=EXCUSE):
        s2 = st.copy()
        if not self.x(s2, CHANGED): self.setx(s2, EXCUSE, True)
        return s2

    def on_call(self, st, ins, name, args):
        if name == "time": return self.told(st, ins)
        if name == "FNLog::FileHandler::is_open": return [(st, ("C", TRUE)), (self.fork(st), ("C", FALSE))]
        if name.endswith("::empty") and args and args[0][0] == "P" and has(ppath(args[0]), "Logger.yaml_path_"): return [(st, ("C", FALSE)), (self.fork(st), ("C", TRUE))]
        if re.search(r"::(length|size)$", name) and args and args[0][0] == "P" and has(ppath(args[0]), "Logger.yaml_path_"):
            v = self.opaque(st, ins, "length"); s2 = self.fork(st)
            return [(x, v) for x in self.assume(st, ("ge", ladd(v[1], lc(-1))))] + [(s2, ("L", ZERO))]
        if name == "FNLog::ParseLogger":
            self.hit("parses")
            for a in args[:1]:
                for k in list(st.mem):
                    if a[0] == "P" and k[0] == a[1]: del st.mem[k]
            v = self.opaque(st, ins, "parsed"); self.setx(st, PARSED, ("lin", v[1])); return [(st, v)]
        out = super().on_call(st, ins, name, args)
        if is_lock_call(name) and out and len(out) == 2 and not self.x(st, CHANGED): self.setx(out[1][0], EXCUSE, True)
        return out

    def told(self, st, ins):
        v = self.opaque(st, ins, "time"); self.setx(st, NOW, ("lin", v[1])); return [(st, v)]

    def on_ret(self, st, ins, v):
        self.settle(st); self.hit("exits")
        if self.x(st, CHANGED):
            self.hit("exits after a change")
            self.chk(self.x(st, F) == "done", "complete/channel", ins, "a hot update can end after it changed something without having gone through every setting of the channel")
            self.chk(self.x(st, D) == "done", "complete/devices", ins, "a hot update can end after it changed something without having gone through every device of the text")
            self.chk(self.x(st, HOT), "complete/hot_update", ins, "a hot update can end after it changed something without having taken over whether hot updates are enabled")
            self.chk(self.x(st, NEW) is None, "complete/visible", ins, "a hot update copies a new device that it never makes visible")
        else:
            self.chk(self.x(st, EXCUSE), "missed", ins, "a hot update can leave a changed text unapplied although nothing speaks against it")


class Caller(Base):
    """a channel's thread updates its own channel"""
    sizes_known = True
    def __init__(self, m, res): super().__init__(m); self.res = res; self.n = 0
    def on_call(self, st, ins, name, args):
        if name == "FNLog::HotUpdateLogger":
            self.n += 1
            self.res.check(args[1][0] == "L" and self.same(st, args[1][1], self.argv[1][1]), "caller/channel", ins.where(), "a channel is dispatched and another one is hot updated")
        return super().on_call(st, ins, name, args) if hasattr(Base, "on_call") else None


def run(res, config):
    m = ctx.module(config, expand=("^FNLog::HotUpdateLogger$",))
    f = m.fn("vroot_hot_update"); e = Update(m, res); e.run(f); res.fns.add("FNLog::HotUpdateLogger")
    for k, n in e.n.items(): res.count(k, n)
    res.need(e.n.get("settings changed", 0), "settings changed", 3)
    res.need(e.n.get("exits after a change", 0), "exits after a change")
    res.need(e.n.get("parses", 0), "parses")
    m = ctx.module(config, keep=ctx.DEVICES)
    e = Caller(m, res); f = m.fn("FNLog::EnterProcChannel"); e.run(f); res.fns.add(f.name)
    res.need(e.n, "calls of HotUpdateLogger from the dispatch loop")
