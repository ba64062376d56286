"""C07: a record is accepted / delivered exactly by the configured filters."""
import ctx
from common import *
from filters import Filter

EXPLANATION = ("Path-sensitive abstract interpretation of the filter code. Every branch decides some clauses of the filter predicate; the set of decided "
               "clauses is the automaton state. Every path that reserves a slot must have decided every channel clause true and all clauses of one "
               "device true; every path that refuses must have decided a channel clause false, or a clause false for each device 0..n-1. For dispatch, "
               "every device reached must have all its clauses true and every device passed over must have one false (or be of a kind that takes no ring records).")
RULE = "filter predicate = conjunction of clauses; acceptance and refusal are checked clause by clause on every path"
ASSUMPTIONS = ["configuration values do not change while one decision is taken",
               "category and identify bits are meant below 64 (shift amounts above are outside the statement)"]
NONE_CH = (None,) * len(Filter.CH)
NONE_DV = (None,) * len(Filter.DV)
SKIP = (False,) * len(Filter.DV)


class Input(Filter):
    """acceptance of a record by the producer side"""
    def __init__(self, mod, res, where, ch, pri, cat, idn, ret):
        super().__init__(mod, res)
        self.w = where; self.ch, self.pri, self.cat, self.idn = ch, pri, cat, idn
        self.retmode = ret
        self.accepts = 0; self.rejects = 0; self.devs = set()

    def setup(self, st):
        st.auto = (NONE_CH, None, NONE_DV, "open")
        self.add_ge(st, ladd(lc(self.FATAL), self.pri, -1))     # known priorities

    def device_at(self, st, ptr, ins):
        p = ppath(ptr)
        d = index_of(p, "Channel.devices_")
        if d is None or not p or p[-1][0].split(".")[0] != "Device": return
        c, n, dv, ph = st.auto
        if ph != "open": return
        self.devs.add(ins.id)
        if n is not None and self.same(st, n[1], d): return
        if n is None:
            if not (isconst(d) and d[0] == 0):
                self.res.bad(self.w + "/first-device", ins.where(), "the examination of devices does not begin with the first one")
            st.auto = (c, ("lin", d), NONE_DV, ph); return
        if False not in dv:
            self.res.bad(self.w + "/device-passed-over", ins.where(), "a device is passed over although none of its clauses is decided false (%s)" % self.show(dv, self.DV))
        if self.same(st, ladd(n[1], lc(1)), d):
            st.auto = (c, ("lin", d), NONE_DV, ph)
        else:
            self.res.bad(self.w + "/device-order", ins.where(), "the devices are not all examined: %s after %s" % (self.linstr(d), self.linstr(n[1])))
            st.auto = (c, ("lin", d), NONE_DV, ph)

    def show(self, v, names):
        return ", ".join("%s=%s" % (k, x) for k, x in zip(names, v))

    def on_load(self, st, ins, p, v):
        self.device_at(st, p, ins)

    def upd(self, st, cond=None):
        c, n, dv, ph = st.auto
        if ph == "taken": return
        atoms = self.bit_atoms(st, cond)
        c2 = self.chan(st, c, atoms)
        d2 = self.dev(st, dv, n[1], atoms) if n is not None else dv
        if False in d2: d2 = SKIP
        if c2 != c or d2 != dv: st.auto = (c2, n, d2, ph)

    def on_branch(self, st, ins, cond, taken):
        c = cond if taken else (cnot(cond) if cond else None)
        self.upd(st, c)

    def on_atomic(self, st, ins, kind, ptr, vals, res):
        cl = self.cls(ptr)
        if kind == "load":
            self.device_at(st, ptr, ins)
        if kind == "cas" and cl == "RingBuffer.hold_idx_" and self.retmode == "cas":
            self.upd(st)
            if res:
                self.accept(st, ins)
                st.auto = st.auto[:3] + ("taken",)

    def accept(self, st, ins):
        c, n, dv, ph = st.auto
        if ph == "taken": return
        if ph == "open" or True:
            self.accepts += 1
            for k, x in zip(self.CH, c):
                self.res.check(x is True, "%s/accept/%s" % (self.w, k), ins.where(), "a record can be accepted without '%s' being established" % k)
            if n is None:
                self.res.bad(self.w + "/accept/no-device", ins.where(), "a record can be accepted although no device was examined")
            else:
                for k, x in zip(self.DV, dv):
                    self.res.check(x is True, "%s/accept/%s" % (self.w, k), ins.where(), "a record can be accepted without '%s' being established for some device" % k)

    def reject(self, st, ins):
        c, n, dv, ph = st.auto
        self.rejects += 1
        if False in c: self.res.ok("%s: refusal decided by a channel clause" % self.w); return
        size = self.memlin(st, "Channel.device_size_", lambda p: self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, self.ch))
        done = ZERO
        good = size is not None
        if n is not None:
            if False in dv: done = ladd(n[1], lc(1))
            else: done = n[1]
        if good: good = self.prove_ge(st, ladd(done, size, -1))
        self.res.check(good, self.w + "/refusal", ins.where(),
                       "a record can be refused although no clause is decided false (channel: %s; device: %s)" % (self.show(c, self.CH), self.show(dv, self.DV)))

    def on_ret(self, st, ins, v):
        c, n, dv, ph = st.auto
        if self.retmode == "bool":
            d = self.decide(st, v[1]) if v[0] in ("C", "B") else self.decide(st, ("ne", v[1])) if v[0] == "L" else None
            if d is None: self.res.bad(self.w + "/undecided", ins.where(), "the decision is not determined by the filter")
            elif d: self.reject(st, ins)
            else: self.accept(st, ins)
        elif ph != "taken":
            self.reject(st, ins)


class Dispatch(Filter):
    """delivery of a ring record to devices by the consumer"""
    volatile_rx = None

    def __init__(self, mod, res):
        super().__init__(mod, res)
        self.w = "dispatch"; self.ch = None
        self.events = 0; self.claims = 0

    def setup(self, st):
        st.auto = ("idle",)
        a = self.argv[1]
        self.ch = a[1] if a[0] == "L" else ZERO

    def rec(self, st, f):
        return self.memlin(st, "LogData." + f, lambda p: has(p, "RingBuffer.buffer_"))

    def inputs(self, st):
        return self.rec(st, "priority_"), self.rec(st, "category_"), self.rec(st, "identify_")

    def dev(self, st, prev, d, atoms):
        pri, cat, idn = self.inputs(st)
        return super().dev(st, prev, d, atoms)

    def upd(self, st, cond=None):
        if st.auto[0] != "rec": return
        _, n, dv, hit = st.auto
        if n is None: return
        atoms = self.bit_atoms(st, cond)
        d2 = self.dev(st, dv, n[1], atoms)
        if hit: d2 = NONE_DV
        if False in d2: d2 = SKIP
        if d2 != dv: st.auto = ("rec", n, d2, hit)

    def on_branch(self, st, ins, cond, taken):
        self.upd(st, cond if taken else (cnot(cond) if cond else None))

    def passed(self, st, ins):
        """the device st.auto names is left: was it delivered to, or rightly skipped?"""
        _, n, dv, hit = st.auto
        if n is None or hit or False in dv: return
        ot = self.memlin(st, "Device.out_type_", lambda p: self.same(st, index_of(p, "Channel.devices_") or ZERO, n[1]))
        if ot is not None and all(self.decide(st, ("eq", ladd(ot, lc(-o)))) is False for o in self.outs): return
        self.res.bad("dispatch/device-passed-over", ins.where(), "a device can be left without the record although none of its clauses is decided false (%s)" %
                     ", ".join("%s=%s" % x for x in zip(self.DV, dv)))

    def device_at(self, st, d, ins):
        if st.auto[0] != "rec": return
        _, n, dv, hit = st.auto
        if n is not None and self.same(st, n[1], d): return
        if n is None:
            if not (isconst(d) and d[0] == 0):
                self.res.bad("dispatch/first-device", ins.where(), "dispatch does not begin with the first device")
            st.auto = ("rec", ("lin", d), NONE_DV, False); return
        self.passed(st, ins)
        if not self.same(st, ladd(n[1], lc(1)), d):
            self.res.bad("dispatch/device-order", ins.where(), "dispatch does not visit the devices one after another: %s after %s" % (self.linstr(d), self.linstr(n[1])))
        st.auto = ("rec", ("lin", d), NONE_DV, False)

    def on_load(self, st, ins, p, v):
        self.see(st, ins, p)

    def see(self, st, ins, p):
        pp = ppath(p)
        if pp and pp[-1][0].startswith("Device.") and has(pp, "Channel.devices_"):
            self.device_at(st, index_of(pp, "Channel.devices_"), ins)

    def emit(self, st, ins, d):
        if st.auto[0] != "rec": return
        self.device_at(st, d, ins)
        self.upd(st)
        _, n, dv, hit = st.auto
        self.events += 1
        if not hit:
            for k, x in zip(self.DV, dv):
                self.res.check(x is True, "dispatch/%s" % k, ins.where(), "a record can reach a device without '%s' being established" % k)
            st.auto = ("rec", n, NONE_DV, True)

    def on_atomic(self, st, ins, kind, ptr, vals, res):
        cl = self.cls(ptr); pp = ppath(ptr)
        if kind == "load": self.see(st, ins, ptr)
        if cl == "RingBuffer.proc_idx_" and kind == "cas" and res:
            self.close(st, ins)
            self.claims += 1
            # what is known about record fields belongs to the previous slot
            for k in [k for k in st.mem if RECORD_RX.match(kcls(k))]: del st.mem[k]
            st.auto = ("rec", None, NONE_DV, False)
        elif cl == MARK and kind == "store" and has(pp, "RingBuffer.buffer_"):
            self.close(st, ins)
        elif cl == "Channel.device_log_fields_" and kind in ("rmw", "store"):
            self.emit(st, ins, index_of(pp, "Channel.device_log_fields_"))

    def close(self, st, ins):
        if st.auto[0] != "rec": return
        self.passed(st, ins)
        _, n, dv, hit = st.auto
        size = self.memlin(st, "Channel.device_size_")
        done = ZERO if n is None else ladd(n[1], lc(1))
        self.res.check(size is not None and (self.prove_ge(st, ladd(done, size, -1)) or (n is not None and self.prove_ge(st, ladd(n[1], size, -1)))),
                       "dispatch/all-devices", ins.where(), "dispatch of a record can end before every device was considered")
        st.auto = ("idle",)

    def on_ret(self, st, ins, v):
        self.close(st, ins)


def arg(fn, i):
    return fn


def run(res, config):
    m = ctx.module(config)

    def inp(fn, args, ret, label):
        e = Input(m, res, label, None, None, None, None, ret)
        e.f = fn; e.ibnd = {}
        av = e.make_args(fn, new_state())
        e.ch, e.pri, e.cat, e.idn = [av[i][1] for i in args]
        e.run(fn, args=av)
        res.fns.add(fn.name)
        res.need(e.accepts, "accepting paths in " + label); res.need(e.rejects, "refusing paths in " + label)
        res.need(len(e.devs), "device field reads in " + label)
    inp(m.fn("vroot_block"), (1, 2, 3, 4), "bool", "BlockInput")
    inp(m.fn("vroot_hold"), (1, 2, 3, 4), "cas", "HoldChannel")
    ctors = [f for f in m.fns_rx(r"^FNLog::LogStream::LogStream$") if len(f.args) >= 8]
    for f in ctors: inp(f, (2, 3, 4, 5), "cas", "LogStream")
    res.need(len(ctors), "LogStream constructors")
    f = m.fn("FNLog::EnterProcChannel")
    d = Dispatch(m, res)
    d.run(f)
    res.fns.add(f.name)
    res.need(d.claims, "record claims"); res.need(d.events, "deliveries")
