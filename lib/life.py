"""Starting and stopping, path by path (C08, C09).
extra (auto[2]) = (last, T, N, U, R, seen, want, ring): last = state of the logger this call stored last; T = threads ended, N = channel states null, U = channels running,
R = queues reset: each a sweep over the channels None | ("at", ("lin", n), status) | ("done",); seen = last value read from a channel's state; want = the thread of the channel at hand has been asked to end"""
from locks import *

LST, CST = "Logger.logger_state_", "Channel.channel_state_"
THREAD = re.compile(r"^std::thread::(\w+|~thread|operator=)(<.*)?$")
LAST, T, N, U, R, SEEN, WANT, MARKED, FRESH, FAILED, CUR = range(11)
AT = ("at", "at-")      # counting up, counting down


ERRORS = ("_ZTISt9exception", "_ZTISt13runtime_error", "_ZTISt12system_error")


class Life(Locks):
    max_disjuncts = 4
    sizes_known = True
    loop_unroll = 0

    def __init__(self, m, res, w, prop):
        super().__init__(m, res, w); self.prop = prop; self.mayth = throws(m)
        self.LEN = m.field_size("FNLog::RingBuffer", "buffer_") // m.struct("FNLog::LogData")["size"]
        e = m.enum
        self.LS = {e("LOGGER_STATE_" + x): x for x in ("UNINIT", "INITING", "RUNNING", "CLOSING")}
        self.CS = {x: e("CHANNEL_STATE_" + x) for x in ("NULL", "RUNNING", "WAITING_FINISH", "FINISH")}
        self.ASYNC, self.SYNC = e("CHANNEL_ASYNC"), e("CHANNEL_SYNC")

    def chk(self, prop, cond, key, where, msg, what=None):
        if prop == self.prop: self.res.check(cond, self.w + "/" + key, where, msg, what=what or (self.w + ": " + key))
        return cond

    def setup(self, st):
        super().setup(st)
        self.ex0 = (None, None, None, None, None, ("lin", lc(-1)), False, None, False, False, ("lin", lc(-1)))
        st.auto = (st.auto[0], st.auto[1], self.ex0)

    def x(self, st, i): return st.auto[2][i]
    def setx(self, st, i, v): e = st.auto[2]; st.auto = st.auto[:2] + (e[:i] + (v,) + e[i + 1:],)

    # ---- what is stable
    def volatile(self, cls): return cls == CST
    def locked(self, st): return any(h[0] == "Logger.state_lock_" for h in st.auto[0])
    def stable_atomic(self, cls): return cls in RING_IDX or cls == LST or super().stable_atomic(cls)
    def call_preserves(self, st, ins, name, key):
        c = kcls(key)
        return c == LST and self.locked(st) or c in RING_IDX or super().call_preserves(st, ins, name, key)
    def forget(self, st):
        for k in [k for k in st.mem if kcls(k) == LST]: del st.mem[k]
    def load_mem(self, st, ins, ptr):
        if ptr[0] == "P" and self.cls(ptr) == LST and not self.locked(st): self.forget(st)
        return super().load_mem(st, ins, ptr)
    def acquire(self, st, ins, cls, ix, blocking, recursive):
        if cls == "Logger.state_lock_" and not self.locked(st): self.forget(st)
        super().acquire(st, ins, cls, ix, blocking, recursive)
    def release(self, st, ins, cls, ix):
        super().release(st, ins, cls, ix)
    def sym_range(self, st, cls, ins):
        if cls == "Channel.channel_type_": return (min(self.ASYNC, self.SYNC), max(self.ASYNC, self.SYNC))
        if cls in RING_IDX: return (0, self.m.field_size("FNLog::RingBuffer", "buffer_") // self.m.struct("FNLog::LogData")["size"] - 1)
        return super().sym_range(st, cls, ins)

    def lstate(self, st):
        l = self.memlin(st, LST)
        if l is None: return None
        for v, n in self.LS.items():
            if self.same(st, l, lc(v)): return n
        return None

    # ---- sweeps over the channels
    def at(self, st, i, n):
        s = self.x(st, i)
        if s and s[0] == "done": return
        if s and self.same(st, s[1][1], n): return
        good = s and (s[2] == "ok")
        size = self.memlin(st, "SHMLogger.channel_size_")
        if good and s[0] == "at" and self.same(st, ladd(s[1][1], lc(1)), n) or self.same(st, n, ZERO) and not (good and s[0] == "at-"): self.setx(st, i, ("at", ("lin", n), ""))
        elif good and s[0] == "at-" and self.same(st, ladd(s[1][1], lc(-1)), n) or size is not None and self.same(st, ladd(n, lc(1)), size): self.setx(st, i, ("at-", ("lin", n), ""))
        else: self.setx(st, i, None)

    def mark(self, st, i, n, status="ok"):
        self.at(st, i, n)
        s = self.x(st, i)
        if s and s[0] in AT and self.same(st, s[1][1], n): self.setx(st, i, (s[0], s[1], status))
        elif s and s[0] == "done" and status != "ok": self.setx(st, i, None)

    def settle(self, st):
        size = self.memlin(st, "SHMLogger.channel_size_")
        for i in (T, N, U, R):
            s = self.x(st, i)
            if s and s[0] in AT:
                n = s[1][1]
                if i == T and s[2] != "ok":
                    t = self.memlin(st, "Channel.channel_type_", lambda p: self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, n))
                    if t is not None and self.differ(st, t, lc(self.ASYNC)): s = (s[0], s[1], "ok"); self.setx(st, i, s)
                if i == U and s[2] == "set":
                    t = self.memlin(st, "Channel.channel_type_", lambda p: self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, n))
                    if t is not None and self.same(st, t, lc(self.SYNC)): s = (s[0], s[1], "ok"); self.setx(st, i, s)
                if i == U and s[2] == "started" and self.same(st, self.x(st, SEEN)[1], lc(self.CS["RUNNING"])): s = (s[0], s[1], "ok"); self.setx(st, i, s)
                if s[2] == "ok" and (s[0] == "at" and size is not None and self.prove_ge(st, ladd(ladd(n, lc(1)), size, -1)) or s[0] == "at-" and self.same(st, n, ZERO)): self.setx(st, i, ("done",))
            elif s is None and size is not None and self.prove_ge(st, lneg(size)): self.setx(st, i, ("done",))
        if not self.x(st, WANT) and self.same(st, self.x(st, SEEN)[1], lc(self.CS["FINISH"])): self.setx(st, WANT, True)

    def done(self, st, i):
        self.settle(st); s = self.x(st, i)
        return bool(s and s[0] == "done")

    def channel(self, st, n):
        if not self.same(st, self.x(st, CUR)[1], n): self.setx(st, CUR, ("lin", n)); self.setx(st, WANT, False); self.setx(st, SEEN, ("lin", lc(-1))); self.setx(st, FAILED, False)
        for i in (T, N, U): self.at(st, i, n)

    # ---- accesses
    def chan(self, p):
        pp = ppath(p)
        return (index_of(pp, "SHMLogger.channels_") or ZERO) if has(pp, "SHMLogger.channels_") else None

    def on_load(self, st, ins, p, v):
        c = self.cls(p)
        n = self.chan(p)
        if n is not None and c in (CST, "Channel.channel_type_"):
            self.settle(st); self.channel(st, n)
            if c == CST and v[0] == "L": self.setx(st, SEEN, ("lin", v[1]))

    def on_store(self, st, ins, p, v):
        c = self.cls(p)
        if c == LST: self.state_store(st, ins, self.lin(st, v))
        elif c == CST and self.chan(p) is not None:
            n = self.chan(p); l = self.lin(st, v)
            self.settle(st); self.channel(st, n); self.hit("channel state stores")
            is_ = lambda k: self.same(st, l, lc(self.CS[k]))
            self.chk("C08", self.locked(st), "unlocked/channel-state", ins.where(), "a channel's state is changed without the state lock")
            self.setx(st, SEEN, ("lin", lc(-1)))
            self.mark(st, N, n, "ok" if is_("NULL") else "")
            if is_("WAITING_FINISH"): self.setx(st, WANT, True)
            self.mark(st, U, n, "set" if is_("RUNNING") else "")
            self.settle(st)
        elif c in RING_IDX or c == MARK: self.ring_store(st, ins, p, c, v)

    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "load": self.on_load(st, ins, p, res)
        elif kind == "store": self.on_store(st, ins, p, vals[0])
        elif self.cls(p) in (LST, CST): raise AnalysisError("a state is changed by %s, which this rule does not follow" % kind)

    def ring_store(self, st, ins, p, c, v):
        self.hit("queue stores")
        pp = ppath(p); n = index_of(pp, "SHMLogger.ring_buffers_") or ZERO
        own = self.x(st, T)
        self.chk("C09", self.done(st, T) or own and own[2:] == ("ok",) and self.same(st, own[1][1], n), "clear/threads", ins.where(), "a queue can be cleared while a channel's thread has not ended", what=self.w + ": queue cleared after every thread ended")
        self.settle(st); self.at(st, R, n)
        ix = lambda f: self.memlin(st, "RingBuffer." + f, lambda q: self.same(st, index_of(q, "SHMLogger.ring_buffers_") or ZERO, n))
        if c == MARK:
            if self.same(st, self.lin(st, v), ZERO): self.clear(st, index_of(pp, "RingBuffer.buffer_") or ZERO, ix("read_idx_"))
            return
        s = self.x(st, R)
        l = self.lin(st, v)
        name = c.split(".")[1]
        if isconst(l):
            st_ = s[2] if s and s[0] in AT else ""
            got = dict(x.split("=") for x in st_.split(",") if "=" in x)
            if not got: self.drained(st, ins)
            got[name] = str(l[0])
            ok = len(got) == 4 and len(set(got.values())) == 1
            if s and s[0] in AT: self.setx(st, R, (s[0], s[1], "ok" if ok else ",".join("%s=%s" % x for x in sorted(got.items()))))
        else:
            self.mark(st, R, n, "")
            if name == "read_idx_":
                self.chk("C08", self.upto(st, l, self.was[0]), "restart/mark", ins.where(), "cleaning a queue can pass a slot without clearing its mark: after a restart it looks complete before it is written")
            elif self.locked(st): self.chk("C08", False, "restart/index", ins.where(), "a queue's index is changed to something else than its start")

    # a run of cleared marks, from the reading index on: (last slot cleared) or (next slot to clear)
    def clear(self, st, slot, read):
        k = self.x(st, MARKED)
        if k and self.upto(st, slot, None) or read is not None and self.same(st, slot, read): self.setx(st, MARKED, ("last", ("lin", slot)))
        else: self.setx(st, MARKED, None)

    def upto(self, st, l, read):
        """every mark from the reading index up to (not including) l is cleared"""
        k = self.x(st, MARKED)
        if k: return self.same(st, k[1][1], l) if k[0] == "next" else self.isnext(st, k[1][1], l)
        return read is not None and self.same(st, read, l)

    was = (None, None); cur = None
    def step(self, st, ins):
        if ins.op == "store":
            p = self.val(st, ins.a[-1]); c = self.cls(p) if p[0] == "P" else ""
            if c == LST: self.cur = self.lstate(st) if self.locked(st) else None
            if c in RING_IDX:
                n = index_of(ppath(p), "SHMLogger.ring_buffers_") or ZERO
                f = lambda k: self.memlin(st, k, lambda q: self.same(st, index_of(q, "SHMLogger.ring_buffers_") or ZERO, n))
                self.was = (f("RingBuffer.read_idx_"), f("RingBuffer.hold_idx_"))
        out = super().step(st, ins)
        for s in out or ():
            k = self.x(s, MARKED)
            v = s.env.get(ins.id) if k and k[0] == "last" and ins.op in ("srem", "urem", "select", "add", "and") else None
            if v and v[0] == "L" and self.isnext(s, k[1][1], v[1]): self.setx(s, MARKED, ("next", ("lin", v[1])))
        return out

    def edge(self, fn, b, nb, s):
        out = super().edge(fn, b, nb, s)
        k = self.x(s, MARKED)
        if k and k[0] == "last":
            for i in fn.blocks[nb]:
                if i.op != "phi": break
                v = s.env.get(i.id)
                if v and v[0] == "L" and self.isnext(s, k[1][1], v[1]): self.setx(s, MARKED, ("next", ("lin", v[1]))); break
        return out

    def drained(self, st, ins):
        r, h = self.was
        self.chk("C08", h is not None and self.upto(st, h, r), "restart/drained", ins.where(), "a queue is set back to its start although the marks of reserved slots were not all cleared: after a restart they look complete before they are written")
        self.setx(st, MARKED, None)

    # ---- the logger's state
    def state_store(self, st, ins, l):
        self.hit("state stores")
        v = next((n for x, n in self.LS.items() if self.same(st, l, lc(x))), None)
        if not self.chk("C08", v is not None, "state/unknown", ins.where(), "the logger's state is set to no known state"): return
        cur = self.cur
        self.chk("C08", self.locked(st), "state/unlocked", ins.where(), "the logger's state becomes %s without the state lock" % v)
        pre = {"INITING": ("UNINIT",), "RUNNING": ("INITING",), "CLOSING": ("RUNNING",), "UNINIT": ("INITING", "CLOSING")}[v]
        self.chk("C08", cur in pre, "state/%s" % v, ins.where(), "the logger's state becomes %s although it is %s, not %s" % (v, "known to be " + cur if cur else "not known under the lock", " or ".join(pre)))
        if v == "RUNNING": self.chk("C08", self.done(st, U), "state/RUNNING-channels", ins.where(), "the logger counts as running although not every channel was started")
        if v == "UNINIT":
            self.chk("C08", self.done(st, T), "state/UNINIT-threads", ins.where(), "the logger counts as stopped although a channel's thread may still run")
            self.chk("C08", self.done(st, N), "state/UNINIT-channels", ins.where(), "the logger counts as stopped although a channel's state is not back at its start")
            if cur == "CLOSING": self.chk("C08", self.done(st, R), "state/UNINIT-queues", ins.where(), "the logger counts as stopped although a queue was not set back to its start")
        self.setx(st, LAST, v)

    # ---- threads
    def on_other_call(self, st, ins, name, args): pass

    def on_call(self, st, ins, name, args):
        mt = THREAD.match(name)
        if mt:
            meth = mt.group(1)
            ix = next(((index_of(ppath(a), "Logger.async_threads") or ZERO) for a in args[:2 if meth == "swap" else 1] if a[0] == "P" and has(ppath(a), "Logger.async_threads")), None)
            if meth == "thread":
                if len(args) > 1: self.setx(st, FRESH, True); self.serve = args
                return [(st, None)]
            if ix is None: return [(st, None)] if meth.startswith("~") else None
            self.settle(st); self.channel(st, ix)
            if meth == "swap": meth = "operator="
            if meth == "operator=":
                self.hit("threads started"); 
                if self.x(st, FRESH): self.mark(st, U, ix, "started"); self.mark(st, T, ix, "")
                self.served(st, ins, ix)
                self.setx(st, FRESH, False)
                return [(st, args[0])]
            if meth == "joinable":
                u = self.x(st, U)
                if u and u[0] in AT and self.same(st, u[1][1], ix):
                    if u[2] in ("started", "ok"): return [(st, ("C", TRUE))]
                    if self.x(st, FAILED): return self.none(st, ix)
                s2 = st.copy()
                return [(st, ("C", TRUE))] + self.none(s2, ix)
            if meth == "join":
                self.hit("threads joined"); self.settle(st)
                self.chk("C09", self.x(st, WANT), "join/unasked", ins.where(), "a thread is waited for that has not been asked to end and is not known to have ended: the wait never ends")
                self.mark(st, T, ix)
                return [(st, None)]
            if meth == "detach":
                self.chk("C09", False, "detach", ins.where(), "a channel's thread is let go instead of being waited for")
                return [(st, None)]
            return None
        return super().on_call(st, ins, name, args)

    def none(self, st, ix): self.mark(st, T, ix); return [(st, ("C", FALSE))]

    def served(self, st, ins, ix):
        p = self.serve[-1] if getattr(self, "serve", None) else None
        v = st.mem.get(self.memkey(p)) if p and p[0] == "P" else None
        if v is not None and v[0] == "L": self.chk("C08", self.same(st, v[1], ix), "thread/channel", ins.where(), "the thread kept for a channel serves another one")

    def on_branch(self, st, ins, cond, taken): self.settle(st)

    def unwind(self, st, ins):
        mt = THREAD.match(ins.callee)
        if mt and mt.group(1) != "thread" or not mt and re.match(r"^(void |.*\) )?std::", ins.callee): return []
        if not mt and not self.mayth(ins): return []
        if mt:      # what this constructor throws is a std::system_error: a handler for it or a base of it does catch it
            pads = [i for i in self.f.blocks[ins.x["unw"]] if i.op == "landingpad"] if ins.op == "invoke" else []
            self.setx(st, FAILED, "caught" if any(v[0] == "g" and v[1] in ERRORS for i in pads for v in i.a) else "thrown"); self.setx(st, FRESH, False)
        return super().unwind(st, ins)

    # ---- what the call reports
    def on_ret(self, st, ins, v):
        l = self.lin(st, v); last = self.x(st, LAST)
        ok, bad = self.same(st, l, ZERO), self.differ(st, l, ZERO)
        self.hit("exits")
        want = "RUNNING" if self.w == "start" else "UNINIT"
        if not bad: self.chk("C08", last == want, "result/ok", ins.where(), "%s can report success although the logger's state was %s" % (self.w, "left as " + last if last else "not changed"))
        if not ok: self.chk("C08", last is None or self.w == "start" and last == "UNINIT", "result/failed", ins.where(), "%s can report failure and leave the logger's state %s" % (self.w, last))
        self.exit(st, ins)

    def on_unwind_exit(self, st, ins):
        self.hit("exits"); last = self.x(st, LAST)
        if self.x(st, FAILED) == "caught": return
        self.chk("C08", last in (None, "UNINIT"), "result/exception", ins.where(), "an exception leaves the logger's state %s: it can neither be stopped nor started again" % last)
        self.exit(st, ins)

    def exit(self, st, ins): pass


class Start(Life): pass


CLOSE = re.compile(r"^(FNLog::FileHandler|UDPHandler)::(close|~\w+)$")


class Stop(Life):
    """stopping also closes every handle, after the threads have ended"""
    def on_project_call(self, st, ins, f, args):
        if CLOSE.match(f.name) and args[0][0] == "P" and (has(ppath(args[0]), "Logger.file_handles_") or has(ppath(args[0]), "Logger.udp_handles_")):
            self.hit("handles closed")
            self.chk("C09", self.done(st, T), "close/threads", ins.where(), "a device handle can be closed while a channel's thread has not ended", what="stop: handle closed after every thread ended")
        return super().on_project_call(st, ins, f, args)


class Worker(Base):
    """what a channel's thread does with the channel's state, and when it ends.
    auto = (last reading of the channel's state, readings of the queue's indices after it, {field: value})"""
    max_disjuncts = 3
    sizes_known = True
    IDX = ("RingBuffer.write_idx_", "RingBuffer.hold_idx_", "RingBuffer.read_idx_", "RingBuffer.proc_idx_")

    def __init__(self, m, res, prop):
        super().__init__(m); self.res = res; self.prop = prop; self.n = {}
        e = m.enum
        self.CS = {x: e("CHANNEL_STATE_" + x) for x in ("NULL", "RUNNING", "WAITING_FINISH", "FINISH")}
        self.ASYNC, self.SYNC = e("CHANNEL_ASYNC"), e("CHANNEL_SYNC")
        self.LEN = m.field_size("FNLog::RingBuffer", "buffer_") // m.struct("FNLog::LogData")["size"]

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def volatile(self, cls): return cls == CST or cls in self.IDX
    def sym_range(self, st, cls, ins):
        if cls == "Channel.channel_type_": return (min(self.ASYNC, self.SYNC), max(self.ASYNC, self.SYNC))
        if cls in self.IDX: return (0, self.LEN - 1)
        return super().sym_range(st, cls, ins)

    def setup(self, st): st.auto = (("lin", lc(-1)), ())
    def asyn(self, st):
        t = self.memlin(st, "Channel.channel_type_")
        return t is not None and self.same(st, t, lc(self.ASYNC))
    def sync(self, st):
        t = self.memlin(st, "Channel.channel_type_")
        return t is not None and self.same(st, t, lc(self.SYNC))

    def chk(self, prop, cond, key, ins, msg):
        if prop == self.prop: self.res.check(cond, key, ins.where(), msg)

    def reading(self, st, p, v, ins):
        c = self.cls(p)
        if c == CST: st.auto = (("lin", self.lin(st, v)), ())
        elif c in self.IDX: st.auto = (st.auto[0], tuple(sorted([x for x in st.auto[1] if x[0] != c] + [(c, ("lin", self.lin(st, v)))])))

    def change(self, st, ins, p, v, frm):
        if self.cls(p) != CST: return
        self.hit("channel state changes")
        l = self.lin(st, v); is_ = lambda k: self.same(st, l, lc(self.CS[k]))
        self.chk("C08", self.asyn(st), "worker/state-sync", ins, "the dispatching code changes the state of a channel that is not known to be asynchronous: only starting and stopping do that, a stop in between is lost")
        if is_("FINISH"): self.hit("ends"); return
        if is_("RUNNING"): self.chk("C08", frm is not None and self.same(st, frm, lc(self.CS["NULL"])), "worker/state-running", ins, "a channel's thread sets its channel to running without one step that requires the initial state: a stop in between is lost"); return
        self.chk("C08", False, "worker/state-other", ins, "a channel's thread sets its channel to another state than running or finished")

    def on_load(self, st, ins, p, v): self.reading(st, p, v, ins)
    def on_store(self, st, ins, p, v): self.change(st, ins, p, v, None)
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "load": self.reading(st, p, res, ins)
        elif kind == "cas":
            if self.cls(p) in self.IDX or not res: st.auto = (st.auto[0] if self.cls(p) != CST else ("lin", lc(-1)), ())
            if res: self.change(st, ins, p, vals[1], self.lin(st, vals[0]))
        else:
            if self.cls(p) in self.IDX: st.auto = (st.auto[0], ())
            self.change(st, ins, p, vals[-1], None)

    def on_call(self, st, ins, name, args):
        if name.startswith("FNLog::EnterProc") or "sleep" in name: st.auto = (st.auto[0], ())
        return super().on_call(st, ins, name, args) if hasattr(Base, "on_call") else None

    def on_ret(self, st, ins, v):
        self.hit("returns")
        if self.sync(st): self.chk("C09", True, "worker/end-sync", ins, ""); return
        d = dict(st.auto[1]); g = lambda k: d.get("RingBuffer." + k)
        self.chk("C09", self.differ(st, st.auto[0][1], lc(self.CS["RUNNING"])), "worker/end-running", ins, "a channel's thread can end although its channel was not found to have been asked to stop")
        empty = any(g(a) and g(b) and self.same(st, g(a)[1], g(b)[1]) for a in ("write_idx_", "hold_idx_") for b in ("read_idx_", "proc_idx_"))
        self.chk("C09", empty, "worker/end-empty", ins, "a channel's thread can end without having found its queue empty after it saw that it should stop: records published before are dropped")


class End(Base):
    """destroying a logger: its storage is released only once it is known to be stopped"""
    max_disjuncts = 3
    def __init__(self, m, res): super().__init__(m); self.res = res; self.n = 0; self.UN = m.enum("LOGGER_STATE_UNINIT")
    def setup(self, st): st.auto = ("lin", lc(-1))
    def volatile(self, cls): return cls == LST
    def on_load(self, st, ins, p, v):
        if self.cls(p) == LST: st.auto = ("lin", self.lin(st, v))
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "load": self.on_load(st, ins, p, res)
    def on_call(self, st, ins, name, args):
        if name == "FNLog::UnloadSharedMemory" or name in ("shmdt", "operator delete", "operator delete(void*)"):
            self.n += 1
            self.res.check(self.same(st, st.auto[1], lc(self.UN)), "destroy/release", ins.where(), "a logger's storage can be released while the logger is not known to be stopped: its threads still use it")
        return None


class Steps(Base):
    """a call made of steps that can fail: auto = (failed, started, just opened)"""
    max_disjuncts = 4
    FAIL = re.compile(r"^FNLog::(InitFromYMAL(File)?|StartLogger|StartChannels|ParseLogger|LoadSharedMemory|LoadAndStartLogger|ParseAndStartLogger)$")

    def __init__(self, m, res, w, last): super().__init__(m); self.res = res; self.w = w; self.last = last; self.n = {}
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st): st.auto = (None, False, False)
    def key(self, st): return st.auto

    def on_call(self, st, ins, name, args):
        if self.FAIL.match(name):
            self.hit("steps")
            self.res.check(st.auto[0] is None, self.w + "/continues", ins.where(), "%s goes on with %s after %s failed" % (self.w, name.split("::")[-1], st.auto[0]))
            ok, bad = st, st.copy()
            v = ls(self.fresh(bad, "call", None, ins, -(1 << 31), (1 << 31) - 1))
            ok.auto = (st.auto[0], st.auto[1] or name.endswith(self.last), False)
            bad.auto = (name.split("::")[-1], st.auto[1], False)
            for k in list(self.call_clobbers(st, ins, name, args)): ok.mem.pop(k, None); bad.mem.pop(k, None)
            return [(ok, ("L", ZERO))] + [(b, ("L", v)) for b in self.assume(bad, ("ne", v))]
        m = re.match(r"^FNLog::FileHandler::(open|is_open)$", name)
        if m and m.group(1) == "open": st.auto = st.auto[:2] + (True,); return None
        if m and st.auto[2]:
            self.hit("steps")
            s2 = st.copy(); st.auto = st.auto[:2] + (False,); s2.auto = ("opening the file", st.auto[1], False)
            return [(st, ("C", TRUE)), (s2, ("C", FALSE))]
        return None

    def on_ret(self, st, ins, v):
        self.hit("exits")
        l = self.lin(st, v)
        if not self.differ(st, l, ZERO):
            self.res.check(st.auto[0] is None, self.w + "/reports", ins.where(), "%s can report success although %s failed" % (self.w, st.auto[0]))
            self.res.check(st.auto[1], self.w + "/done", ins.where(), "%s can report success without %s having succeeded" % (self.w, self.last))


class Init(Life):
    """taking over a configuration: only under the lock, and only while the logger is in its initial state"""
    def settle(self, st): pass
    def mine(self, p): return p[0] == "P" and p[1] == ("arg", 0) and any(f.startswith(("Logger.", "SHMLogger.", "Channel.", "Device.")) for f, _ in ppath(p)) or p[0] == "P" and has(ppath(p), "Logger.shm_")
    def took(self, st, ins, p):
        if not self.mine(p): return
        self.hit("changes")
        self.chk("C08", self.locked(st) and self.lstate(st) == "UNINIT", "takes-over", ins.where(), "a configuration can be taken over without the state lock or although the logger is not known to be in its initial state")
    def on_store(self, st, ins, p, v): self.took(st, ins, p)
    def on_memop(self, st, ins, name, args, n): self.took(st, ins, args[0])
    def on_load(self, st, ins, p, v): pass
    def on_ret(self, st, ins, v): pass
    def on_unwind_exit(self, st, ins): pass


def writers(m):
    """functions that store the logger's state outside starting, stopping and construction"""
    out = {}
    for f in m.fns.values():
        for i in f.insts() if f.blocks else ():
            if i.op not in ("store", "atomicrmw", "cmpxchg"): continue
            v = i.a[-1] if i.op == "store" else i.a[0]
            g = f.inst.get(v[1]) if v[0] == "i" else None
            if g is not None and g.op == "getelementptr" and any(p[0] == "f" and p[3] == "logger_state_" for p in g.x.get("path", [])):
                ch = [x[2] for x in (i.loc() or [])] + [f.name]
                if not any(re.match(r"^(FNLog::)?(StartLogger|StopLogger|InitLogger|Logger::Logger|vroot_start|vroot_stop)$", c or "") for c in ch): out.setdefault(f.name, i)
    return out
