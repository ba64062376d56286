"""C25: network input stays within the record and is used only while enabled."""
import ctx
from common import *

EXPLANATION = ("Path-sensitive abstract interpretation of the input part of the dispatch loop and of the receiving function: a socket is read only for a device whose kind of input is network and which is enabled, with that device's own socket, known to be open; "
               "the room given to the receiving call lies inside the record's text with space left for the terminator, the call never reports more than that room or a negative length, the stored length is what was received, the terminator is stored at that length, "
               "and only a non-empty record is handed on, to that same device only. A device found disabled has its socket closed or found closed before the next device.")
RULE = "read => in_type UDP, enabled, own open handle, room <= text - 1; handed on => 0 < length = received, text[length] = 0; disabled => closed"
ASSUMPTIONS = ["recvfrom returns at most the length it is given", "device settings do not change while one device is served"]
UDPH = re.compile(r"^UDPHandler::(~?\w+)$")


class Input(Base):
    """auto = ((device, its handle once used), handle state ?/open/closed, read result or None, (length stored, terminator stored), closed for being disabled)"""
    max_disjuncts = 4
    sizes_known = True

    def __init__(self, m, res, f):
        super().__init__(m); self.res = res; self.n = {}; self.reader = f
        self.UDP = m.enum("DEVICE_IN_UDP"); self.ABLE = m.enum("DEVICE_CFG_ABLE")
        self.TEXT = m.field_size("FNLog::LogData", "content_")

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st):
        self.ch = [a[1] for a in self.argv if a[0] == "L"][0]
        self.bound_arg(st, [i for i, a in enumerate(self.argv) if a[0] == "L"][0], 0, self.NCHAN - 1)
        st.auto = (None, "?", None, (False, False), None)

    def mem(self, st, cls, d):
        return self.memlin(st, cls, lambda p: self.same(st, index_of(p, "Channel.devices_") or ZERO, d) and self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, self.ch))
    def isudp(self, st, d):
        t = self.mem(st, "Device.in_type_", d)
        return None if t is None else self.decide(st, ("eq", ladd(t, lc(-self.UDP))))
    def able(self, st, d):
        v = self.memlin(st, "Device.config_fields_", lambda p: index_of(p, "Device.config_fields_") == lc(self.ABLE) and self.same(st, index_of(p, "Channel.devices_") or ZERO, d))
        return None if v is None else self.decide(st, ("ne", v))

    def leave(self, st, ins):
        """the device in auto[0] is left"""
        d, h, r, s, dis = st.auto
        if d is None: return
        if dis:
            self.hit("disabled inputs left")
            self.res.check(h == "closed", "disabled/open", ins.where(), "a disabled network input can be left with its socket open: it keeps receiving")

    def device(self, st, ins, d):
        n = st.auto[0]
        if n is not None and self.same(st, n[0][1], d): return
        self.leave(st, ins)
        st.auto = ((("lin", d), None), "?", None, (False, False), None)

    def look(self, st, p, ins):
        pp = ppath(p)
        if pp and pp[-1][0] == "Device.in_type_": self.device(st, ins, index_of(pp, "Channel.devices_") or ZERO)

    def on_branch(self, st, ins, cond, taken):
        d, h, r, s, dis = st.auto
        if d is not None and dis is None:
            u = self.isudp(st, d[0][1])
            if u is False: st.auto = (None, "?", None, (False, False), None); return
            a = self.able(st, d[0][1])
            if u and a is not None: st.auto = (d, h, r, s, not a)

    def inbuf(self, p): return has(ppath(p), "RingBuffer.udp_buffer_")

    def on_load(self, st, ins, p, v): self.look(st, p, ins)
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "load": self.look(st, p, ins)

    def on_store(self, st, ins, p, v):
        if not self.inbuf(p): return
        d, h, r, s, dis = st.auto
        pp = ppath(p)
        if pp[-1][0] == "LogData.content_len_":
            st.auto = (d, h, r, (r is not None and self.same(st, self.lin(st, v), r[1]), False), dis)
        elif pp[-1][0] == "LogData.content_":
            i = index_of(pp, "LogData.content_")
            ok = self.prove_ge(st, i) and self.prove_ge(st, ladd(lc(self.TEXT - 1), i, -1))
            self.res.check(ok, "store/bounds", ins.where(), "a byte can be stored outside the input record's text (at %s)" % self.linstr(i))
            if r is not None:
                if self.same(st, i, r[1]): st.auto = (d, h, r, (s[0], self.same(st, self.lin(st, v), ZERO)), dis)

    def on_call(self, st, ins, name, args):
        m = UDPH.match(name)
        if m and args:
            meth = m.group(1)
            ix = index_of(ppath(args[0]), "Logger.udp_handles_")
            if ix is None: return None
            d, h, r, s, dis = st.auto
            self.hit("socket operations")
            own = d is not None and (self.same(st, ix, d[1][1]) if d[1] is not None else self.same(st, ix, ladd(lmul(self.ch, self.NDEV), d[0][1])))
            if own and d[1] is None: d = (d[0], ("lin", ix))
            self.res.check(own, meth + "/other-socket", ins.where(), "the socket of another device is used for network input (number %s)" % self.linstr(ix))
            if meth == "is_open":
                if h == "?":
                    s2 = st.copy(); st.auto = (d, "open", r, s, dis); s2.auto = (d, "closed", r, s, dis)
                    return [(st, ("C", TRUE)), (s2, ("C", FALSE))]
                return [(st, ("C", TRUE if h == "open" else FALSE))]
            if meth == "close": st.auto = (d, "closed", r, s, dis); return None
            if meth in ("open", "bind", "read"):
                self.res.check(d is not None and self.isudp(st, d[0][1]) is True, meth + "/kind", ins.where(), "a socket is used for input although the device is not known to take network input")
                self.res.check(dis is False, meth + "/disabled", ins.where(), "a socket is used for input although its device is not known to be enabled")
            if meth == "open": st.auto = (d, "?", r, s, dis); return None
            st.auto = (d, h, r, s, dis)
            if meth == "bind":
                v = self.opaque(st, ins, "bound") if ins.ty != "void" else None
                if v is None: return None
                return [(st, v)]
            if meth == "read":
                self.hit("receive calls")
                self.res.check(h == "open", "read/not-open", ins.where(), "a socket is read that is not known to be open")
                buf, room = args[1], self.lin(st, args[2])
                off = index_of(ppath(buf), "LogData.content_")
                self.res.check(self.inbuf(buf) and off is not None and self.same(st, off, ZERO), "read/other-buffer", ins.where(), "the datagram is not received into the start of the input record's text")
                o = off if off is not None else ZERO
                self.res.check(self.prove_ge(st, room) and self.prove_ge(st, ladd(ladd(lc(self.TEXT - 1), o, -1), room, -1)), "read/room", ins.where(), "the room given to the receiving call leaves no space for the terminator or lies outside the record's text (%s)" % self.linstr(room))
                hi = self.hi(st, room)
                v = ("L", ls(self.fresh(st, "received", None, ins, 0, max(int(min(hi, 1 << 31)), 0))))
                self.add_ge(st, ladd(room, v[1], -1))
                st.auto = (d, h, ("lin", v[1]), (False, False), dis)
                return [(st, v)]
            return None
        if name.startswith("FNLog::EnterProc") and name.endswith("Device") and any(a[0] == "P" and has(ppath(a), "RingBuffer.udp_buffer_") for a in args):
            d, h, r, s, dis = st.auto
            self.hit("records handed on")
            nums = [self.lin(st, a) for a in args if a[0] in ("L", "B", "C")]
            self.res.check(d is not None and len(nums) == 2 and self.same(st, nums[0], self.ch) and self.same(st, nums[1], d[0][1]), "hand/other-device", ins.where(), "a received record is handed to another device")
            self.res.check(r is not None, "hand/nothing", ins.where(), "an input record is handed on although nothing was received into it")
            if r is not None:
                self.res.check(s[0], "hand/length", ins.where(), "an input record is handed on whose length is not what was received")
                self.res.check(s[1], "hand/terminator", ins.where(), "an input record is handed on without a terminator at its length")
                self.res.check(self.prove_ge(st, ladd(r[1], lc(-1))), "hand/empty", ins.where(), "an input record is handed on although nothing was received")
            st.auto = (d, h, None, (False, False), dis)
            return None
        if name == "FNLog::DispatchLog" and any(a[0] == "P" and has(ppath(a), "RingBuffer.udp_buffer_") for a in args):
            self.hit("records handed on")
            self.res.bad("hand/every-device", ins.where(), "a received record is handed to the devices of the channel instead of its own device")
            return None
        if WAITS.search(name) or name == "FNLog::HotUpdateLogger":
            self.leave(st, ins); st.auto = (None, "?", None, (False, False), None)
        return None

    def on_ret(self, st, ins, v): self.leave(st, ins)


WAITS = re.compile(r"sleep|yield")


class Reader(Base):
    def __init__(self, m, res):
        super().__init__(m); self.res = res; self.n = 0
    def setup(self, st):
        a = [i for i, x in enumerate(self.argv) if x[0] == "L"]
        self.room = self.argv[a[-1]][1]
        self.bound_arg(st, a[-1], 0, (1 << 31) - 1)

    def on_call(self, st, ins, name, args):
        if name in ("recvfrom", "recv", "read", "recvmsg") and ins.ty in ("i64", "i32"):
            self.n += 1
            self.res.check(args[1] == self.argv[1], "receive/buffer", ins.where(), "something else than the given buffer is received into")
            n = self.lin(st, args[2])
            self.res.check(self.prove_ge(st, ladd(self.room, n, -1)), "receive/length", ins.where(), "more than the room given can be received (%s)" % self.linstr(n))
            v = ls(self.fresh(st, "received", None, ins, -1, 1 << 31))
            self.add_ge(st, ladd(n, v, -1))
            return [(st, ("L", v))]
        return None

    def on_ret(self, st, ins, v):
        l = self.lin(st, v)
        self.res.check(self.prove_ge(st, l) and self.prove_ge(st, ladd(self.room, l, -1)), "receive/result", ins.where(), "the receiving function can report a negative length or more than the room it was given (%s)" % self.linstr(l))


def run(res, config):
    m = ctx.module(config, keep=ctx.DEVICES + ("^FNLog::DispatchLog$",))
    r = [f for f in m.fns_rx("^UDPHandler::read$")]
    f = m.fn("FNLog::EnterProcChannel")
    e = Input(m, res, f); e.run(f); res.fns.add(f.name)
    for k in ("socket operations", "receive calls", "records handed on", "disabled inputs left"): res.need(e.n.get(k, 0), k)
    res.need(len(r), "receiving functions")
    for g in r:
        e = Reader(m, res); e.run(g); res.fns.add(g.name); res.need(e.n, "receive system calls")
