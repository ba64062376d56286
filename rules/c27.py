"""C27: written lines are flushed before the writer rests or ends."""
import ctx
from common import *

EXPLANATION = ("Path-sensitive abstract interpretation of the dispatch loop: handing a record (from the queue or from the network) to a device makes the channel's files unflushed; they are flushed again once every device number from 0 up to the number of "
               "devices has been found not to be a file or had its own file flushed or closed. Every path on which the thread sleeps, waits or returns has flushed since the last record.")
RULE = "record handed over => all file devices of the channel flushed before sleep, wait or return"
ASSUMPTIONS = ["devices added by a hot update after the flush have received nothing yet"]
WAIT = re.compile(r"sleep|yield|::wait|^poll$|^select$|sem_wait")


class Flush(Base):
    """auto = (unflushed, device being examined or None, examined device settled)"""
    max_disjuncts = 3
    sizes_known = True

    def __init__(self, m, res):
        super().__init__(m); self.res = res; self.n = {}
        self.FILE = m.enum("DEVICE_OUT_FILE")

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def key(self, st):
        # counters that tell whether something was handed over: kept apart from zero
        return (st.auto, tuple(sorted(k for k, v in st.env.items() if k in self.counters() and v[0] == "L" and self.lo(st, v[1]) > 0)))

    def counters(self):
        """the integers some branch compares with zero, and what they are summed up from"""
        c = self.__dict__.get("_counters")
        if c is None:
            f = self.f; c = set()
            work = [i.a[0][1] for i in f.insts() if i.op == "icmp" and i.a[0][0] == "i" and i.a[1][0] == "c" and i.a[1][1] == "0" and i.x.get("oty") in ("i32", "i64")]
            while work:
                k = work.pop()
                if k in c or k not in f.inst: continue
                i = f.inst[k]
                if i.op == "phi": c.add(k); work += [v[1] for _, v in i.x["inc"] if v[0] == "i"]
                elif i.op == "add": c.add(k); work += [v[1] for v in i.a if v[0] == "i"]
            self._counters = c
        return c

    def setup(self, st):
        self.ch = [a[1] for a in self.argv if a[0] == "L"][0]
        st.auto = (False, None, False)

    def look(self, st, p, ins):
        if not st.auto[0]: return
        pp = ppath(p)
        if not pp or pp[-1][0] != "Device.out_type_": return
        c = index_of(pp, "SHMLogger.channels_") or ZERO; d = index_of(pp, "Channel.devices_") or ZERO
        if not self.same(st, c, self.ch): return
        self.at(st, d)

    def at(self, st, d):
        _, n, ok = st.auto
        if n is not None and self.same(st, n[1], d): return
        if n is not None and ok and self.same(st, ladd(n[1], lc(1)), d): st.auto = (True, ("lin", d), False)
        elif self.same(st, d, ZERO): st.auto = (True, ("lin", d), False)
        else: st.auto = (True, None, False)

    def settle(self, st):
        u, n, ok = st.auto
        if not u: return
        size = self.memlin(st, "Channel.device_size_", lambda p: self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, self.ch))
        if n is None:
            if size is not None and self.prove_ge(st, lneg(size)): st.auto = (False, None, False)
            return
        if not ok:
            t = self.memlin(st, "Device.out_type_", lambda p: self.same(st, index_of(p, "Channel.devices_") or ZERO, n[1]))
            if t is not None and self.decide(st, ("eq", ladd(t, lc(-self.FILE)))) is False: ok = True; st.auto = (True, n, True)
        if ok and size is not None and self.prove_ge(st, ladd(ladd(n[1], lc(1)), size, -1)): st.auto = (False, None, False)

    def on_load(self, st, ins, p, v): self.look(st, p, ins)
    def on_atomic(self, st, ins, kind, p, vals, res): self.look(st, p, ins)
    def on_branch(self, st, ins, cond, taken): self.settle(st)

    def on_call(self, st, ins, name, args):
        if name.startswith("FNLog::EnterProc") and name.endswith("Device"):
            self.hit("records handed over"); st.auto = (True, None, False); return None
        m = re.match(r"^FNLog::FileHandler::(\w+)$", name)
        if m and args:
            if m.group(1) in ("flush", "close"):
                ix = index_of(ppath(args[0]), "Logger.file_handles_")
                self.hit("flushes")
                if st.auto[0] and ix is not None:
                    n = st.auto[1]
                    d = ladd(ix, lmul(self.ch, self.NDEV), -1)
                    if n is None or not self.same(st, n[1], d): self.at(st, d)
                    n = st.auto[1]
                    if n is not None and self.same(st, n[1], d): st.auto = (True, n, True)
                    self.settle(st)
            elif m.group(1) == "write": st.auto = (True, None, False)
            return None
        if WAIT.search(name):
            self.settle(st); self.hit("sleeps")
            self.res.check(not st.auto[0], "sleep", ins.where(), "the dispatching thread can sleep with lines in a file's buffer that nothing flushes")
        return None

    def on_ret(self, st, ins, v):
        self.settle(st); self.hit("returns")
        self.res.check(not st.auto[0], "return", ins.where(), "dispatching can end with lines in a file's buffer that nothing flushes")


def run(res, config):
    m = ctx.module(config, keep=ctx.DEVICES)
    f = m.fn("FNLog::EnterProcChannel")
    e = Flush(m, res); e.run(f); res.fns.add(f.name)
    for k in ("records handed over", "flushes", "sleeps", "returns"): res.need(e.n.get(k, 0), k)
