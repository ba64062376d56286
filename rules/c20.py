"""C20: statistics count each event once, in the right counter."""
import ctx
from devices import *
from ring import *
from c26 import Hook, analyse

EXPLANATION = ("Event/counter pairing by path-sensitive abstract interpretation. Devices: every counter update while a record is handed to a device goes to the counters of that channel and device and has the amount it stands for "
               "(1 line, or the record's length under its own priority), and each path's updates are exactly those of what happened on it: written, printed, given to the hook, or lost. "
               "Queue: each reservation, refusal of a full queue, completion, publication and dispatch step is followed by its own counter of its own channel exactly once, by 1 or by the length of the record concerned.")
RULE = "event e on (channel, device) => exactly one update of counter(e) of (channel, device) by amount(e); no update without its event"
ASSUMPTIONS = ["a line handed to a socket counts as written; if the send fails it is counted as lost as well (the project's own tests read the ratio of the two)"]


class Dev(DevPath):
    def counter(self, st, ins, c, d, e, amt):
        e = self.strip(st, e); what = self.which(st, e)
        n = self.rec(st, "content_len_"); p = self.rec(st, "priority_")
        self.res.check(self.same(st, c, self.ch) and self.same(st, d, self.dev), self.w + "/other-device", ins.where(), "a statistic of another channel or device is updated (%s, %s)" % (self.linstr(c), self.linstr(d)))
        if what is None and p is not None and self.same(st, ladd(e, lc(-self.PRI)), p): what = "PRIORITY"
        if what is None: what = "PRIORITY" if p is None else None
        if what is None: self.res.bad(self.w + "/unknown-counter", ins.where(), "an event is counted in the wrong place (number %s)" % self.linstr(e)); return
        if what in ("TOTAL_WRITE_LINE", "TOTAL_LOSE_LINE", "LAST_TRY_CREATE_CNT"): ok = self.same(st, amt, lc(1))
        else: ok = n is not None and self.same(st, amt, n)
        self.res.check(ok, self.w + "/amount/" + what, ins.where(), "the %s counter is updated by the wrong amount (%s)" % (what, self.linstr(amt)), what="%s %s amount" % (self.w, what))
        self.ev(st, what)

    def setlog(self, st, ins, c, d, e, v):
        what = self.which(st, e)
        self.res.check(self.same(st, c, self.ch) and self.same(st, d, self.dev), self.w + "/other-device", ins.where(), "a statistic of another channel or device is set")
        if what in ("TOTAL_WRITE_LINE", "TOTAL_WRITE_BYTE", "TOTAL_LOSE_LINE", None):
            self.res.bad(self.w + "/overwritten", ins.where(), "a counter is overwritten instead of counted up: other events are forgotten")
        elif what == "CUR_FILE_SIZE":
            self.ev(st, "size set")
            l = self.lin(st, v) if v[0] != "U" else None
            good = l is not None and (self.same(st, l, ZERO) or self.is_opened(l))
            self.res.check(good, self.w + "/file-size", ins.where(), "the size of the current file is set to something else than 0 or what opening reported")

    def opened(self, st, ins, v): self.put(st, 3, ("lin", v[1]))
    def is_opened(self, l):
        def f(l):
            for s in lsyms(l):
                sy = self.syms[s]
                if sy.kind == "opened": return True
                if sy.kind in ("sext", "uns", "trunc") and sy.data:
                    d = sy.data[0] if sy.kind == "trunc" else sy.data
                    if f(d): return True
            return False
        return f(l)

    def on_ret(self, st, ins, v):
        c = lambda x: self.count(st, x)
        k = self.kind(st)
        self.hit("exits")
        wrote = c("write") + c("screen") or (1 if k == "EMPTY" else 0)
        if k == "FILE" and c("failed"): wrote = 0
        lost = c("failed") or (1 if k in ("FILE", "UDP") and not c("write") else 0)
        for cnt, want, nm in (("TOTAL_WRITE_LINE", wrote, "lines written"), ("TOTAL_WRITE_BYTE", wrote, "bytes written"), ("PRIORITY", wrote, "bytes by priority"), ("TOTAL_LOSE_LINE", lost, "lines lost"),
                              ("CUR_FILE_SIZE", wrote if k == "FILE" else 0, "size of the current file")):
            self.res.check(c(cnt) == want, "%s/%s/%s" % (self.w, (k or "unknown").lower(), cnt), ins.where(), "the %s of a %s device are counted %d times where %d is right" % (nm, (k or "unknown").lower(), c(cnt), want),
                           what="%s %s: %s counted" % (self.w, k, nm))


class Queue(Ring):
    """auto[0] = (held | released, lengths read while held, priorities read while held); auto[2] = tuple of (event or counter, times) still unpaired"""
    keep_record = True

    def __init__(self, m, res, w):
        super().__init__(m, res, w)
        e = m.enum
        self.LOG = {e("CHANNEL_LOG_" + x): x for x in ("WAIT_COUNT", "HOLD", "PUSH", "PROCESSED", "PROCESSED_BYTES", "MAX_PROC_QUE_SIZE", "MAX_DELAY_TIME_S", "HOTUPDATE_CHECK", "HOTUPDATE_CHANGE")}
        self.PRI = e("CHANNEL_LOG_PRIORITY")

    def setup(self, st): st.auto = (("held", (), ()), (), ())
    def key(self, st): return st.auto[2]
    PAIR = {"reserve": ("HOLD",), "publish": ("PUSH",), "dispatch": ("PROCESSED", "PROCESSED_BYTES"), "complete": ("PRIORITY",), "wait": ("WAIT_COUNT",)}

    def add(self, st, ins, what, n):
        d = {(x[0]): x for x in st.auto[2]}
        t = d.get(what, (what, 0))[1] + n
        if abs(t) > 1:
            self.res.bad("%s/%s" % (self.w, what), ins.where(), "%s %s" % (NAMES[what], "is counted twice" if t > 0 else "happens without being counted")); t = 1 if t > 0 else -1
        d[what] = (what, t)
        st.auto = st.auto[:2] + (tuple(sorted(x for x in d.values() if x[1])),)

    def event(self, st, ins, what):
        self.hit(what)
        for c in self.PAIR[what]: self.add(st, ins, c, -1)

    def advance(self, st, ins, cl, ring, e, n):
        what = {"reserve": "reserve", "write": "publish", "dispatch": "dispatch"}.get(SHORT[cl])
        if what:
            self.event(st, ins, what)
            if what == "dispatch": self.own(st, ("held", (), ()))

    def mark(self, st, ins, ring, slot, v):
        if self.same(st, v, lc(self.READY)): self.event(st, ins, "complete")
        elif self.same(st, v, lc(self.INVALID)):       # given back: from here on the slot is another record's
            self.own(st, ("released",) + st.auto[0][1:])
            for k in [k for k in st.mem if kcls(k).startswith("LogData.")]: del st.mem[k]

    def on_atomic(self, st, ins, kind, p, vals, res):
        super().on_atomic(st, ins, kind, p, vals, res)
        pp = ppath(p)
        if not has(pp, "Channel.channel_log_fields_"): return
        e = self.strip(st, index_of(pp, "Channel.channel_log_fields_")); c = index_of(pp, "SHMLogger.channels_") or ZERO
        what = self.LOG.get(e[0]) if isconst(e) else None
        if kind == "rmw" and vals[0] in ("add", "sub"):
            amt = self.lin(st, vals[1])
            self.hit("counter updates")
            if self.chan is not None:
                self.res.check(self.same(st, c, self.chan), self.w + "/other-channel", ins.where(), "a statistic of another channel is updated")
            if what is None:
                pr = self.recval(st, "priority_")
                l = ladd(e, lc(-self.PRI))
                if any(self.same(st, l, x) for x in pr): what = "PRIORITY"
                else: self.res.bad(self.w + "/unknown-counter", ins.where(), "an event is counted in the wrong place (number %s)" % self.linstr(e)); return
            if what in ("PRIORITY", "PROCESSED_BYTES"):
                ok = any(self.same(st, amt, x) for x in self.recval(st, "content_len_"))
                self.res.check(ok, "%s/amount/%s" % (self.w, what), ins.where(), "%s counted by something else than the record's length" % NAMES[what], what="%s amount" % what)
            else: self.res.check(self.same(st, amt, lc(1)), "%s/amount/%s" % (self.w, what), ins.where(), "%s counted by %s instead of 1" % (NAMES[what], self.linstr(amt)), what="%s amount" % what)
            if what in NAMES: self.add(st, ins, what, 1)
        elif kind in ("store", "rmw"):
            if what in ("MAX_PROC_QUE_SIZE", "MAX_DELAY_TIME_S"): return
            self.res.bad(self.w + "/overwritten", ins.where(), "a counter is overwritten instead of counted up: other events are forgotten")

    def on_call(self, st, ins, name, args):
        if self.waits and WAIT.search(name): self.event(st, ins, "wait")
        return super().on_call(st, ins, name, args)

    chan = None
    waits = False

    def recval(self, st, name):
        return [x for _, x in st.auto[0][1 if name == "content_len_" else 2]]

    def on_load(self, st, ins, p, v):
        super().on_load(st, ins, p, v)
        c = self.cls(p); i = {"LogData.content_len_": 1, "LogData.priority_": 2}.get(c)
        if i and st.auto[0][0] == "held":
            v = self.lin(st, v)
            if not any(x == v for _, x in st.auto[0][i]):
                o = list(st.auto[0]); o[i] = (o[i] + (("lin", v),))[-4:]; self.own(st, tuple(o))

    def on_store(self, st, ins, p, v):
        super().on_store(st, ins, p, v)
        i = {"LogData.content_len_": 1, "LogData.priority_": 2}.get(self.cls(p))
        if i and st.auto[0][0] == "held":
            o = list(st.auto[0]); o[i] = (("lin", self.lin(st, v)),); self.own(st, tuple(o))

    def on_ret(self, st, ins, v):
        self.hit("exits")
        for x, n in st.auto[2]:
            if n < 0: self.res.bad("%s/%s" % (self.w, x), ins.where(), "%s is not counted" % NAMES[x])
            else: self.res.bad("%s/%s" % (self.w, x), ins.where(), "%s is counted without having happened" % NAMES[x])
        if not st.auto[2]: self.res.ok(self.w + ": all events counted")


class Silent:
    def __getattr__(self, n): return lambda *a, **k: True


class Virtual(Hook):
    """the virtual device: one line, its bytes and its priority per call of the hook"""
    def __init__(self, m, res, w):
        super().__init__(m, Silent(), w); self.r = res
        e = m.enum
        self.WHAT = {e("DEVICE_LOG_TOTAL_WRITE_LINE"): "TOTAL_WRITE_LINE", e("DEVICE_LOG_TOTAL_WRITE_BYTE"): "TOTAL_WRITE_BYTE"}
        self.PRI = e("DEVICE_LOG_PRIORITY")

    def on_atomic(self, st, ins, kind, p, vals, res):
        super().on_atomic(st, ins, kind, p, vals, res)
        pp = ppath(p)
        if not has(pp, "Channel.device_log_fields_") or kind == "load": return
        ix = [i for f, x in pp if f == "Channel.device_log_fields_" for i, *_ in x]
        c = index_of(pp, "SHMLogger.channels_") or ZERO; d, e = (ix + [ZERO, ZERO])[:2]
        if kind != "rmw" or vals[0] != "add": self.r.bad("virtual/overwritten", ins.where(), "a counter of the virtual device is overwritten instead of counted up"); return
        e = self.strip(st, e); ch = self.chlin(st); n = self.field(st, "content_len_"); p = self.field(st, "priority_")
        vd = self.memlin(st, "Channel.virtual_device_id_", lambda q: ch is not None and self.same(st, index_of(q, "SHMLogger.channels_") or ZERO, ch))
        self.r.check(ch is not None and self.same(st, c, ch) and vd is not None and self.same(st, d, vd), "virtual/other-device", ins.where(), "a statistic of another channel or device is updated (%s, %s)" % (self.linstr(c), self.linstr(d)))
        what = self.WHAT.get(e[0]) if isconst(e) else None
        if what is None and p is not None and self.same(st, ladd(e, lc(-self.PRI)), p): what = "PRIORITY"
        if what is None: self.r.bad("virtual/unknown-counter", ins.where(), "an event is counted in the wrong place (number %s)" % self.linstr(e)); return
        amt = self.lin(st, vals[1])
        self.r.check(self.same(st, amt, lc(1)) if what == "TOTAL_WRITE_LINE" else n is not None and self.same(st, amt, n), "virtual/amount/" + what, ins.where(), "the %s counter is updated by the wrong amount (%s)" % (what, self.linstr(amt)))
        k = dict(st.auto[3]); k[what] = min(k.get(what, 0) + 1, 3)
        st.auto = st.auto[:3] + (tuple(sorted(k.items())),)

    def on_ret(self, st, ins, v):
        self.hit("exits")
        k = dict(st.auto[3])
        for what in ("TOTAL_WRITE_LINE", "TOTAL_WRITE_BYTE", "PRIORITY"):
            self.r.check(k.get(what, 0) == st.auto[1], "virtual/" + what, ins.where(), "the %s counter of the virtual device is updated %d times for %d records given to the hook" % (what, k.get(what, 0), st.auto[1]), what="virtual device: %s counted" % what)


NAMES = {"HOLD": "a reserved slot", "PUSH": "a published record", "PROCESSED": "a dispatched record", "PROCESSED_BYTES": "the length of a dispatched record", "PRIORITY": "the length of a record under its priority", "WAIT_COUNT": "a wait for room in the queue"}
WAIT = re.compile(r"sleep|yield")


def run(res, config):
    m = ctx.module(config, keep=("^FNLog::EnterProcDevice$",))
    f = writer(m)
    e = Dev(m, res, "device"); e.run(f); res.fns.add(f.name)
    res.need(e.n.get("exits", 0), "ways a device ends with a record", 5)
    for k in ("TOTAL_WRITE_LINE", "TOTAL_WRITE_BYTE", "TOTAL_LOSE_LINE"): res.need(e.n.get(k, 0), k + " updates")
    m = ctx.module(config, keep=ctx.DEVICES + ("^FNLog::DispatchLog$",))
    for name, chan, needs in (("vroot_hold", 0, ("reserve", "counter updates")), ("vroot_push", 0, ("complete", "publish", "counter updates")), ("vroot_proc", 0, ())):
        f = m.fn(name)
        if name == "vroot_proc": f = m.fn("FNLog::EnterProcChannel"); needs = ("dispatch", "counter updates")
        e = Queue(m, res, f.name.split("::")[-1].replace("vroot_", "")); e.waits = name == "vroot_hold"
        e.f = f; e.ibnd = {}
        av = e.make_args(f, new_state()); e.chan = [a[1] for a in av if a[0] == "L"][0]
        e.run(f, args=av); res.fns.add(f.name)
        for k in needs: res.need(e.n.get(k, 0), "%s in %s" % (k, e.w))
    m = ctx.module(config, keep=("^FNLog::PushLog$", "^FNLog::PushChannel$"))
    for e in analyse(m, res, Virtual): res.need(e.n.get("exits", 0), "ends of a statement")
