"""C26: the virtual device hook sees exactly the records its device admits."""
import ctx
from filters import *

EXPLANATION = ("Path-sensitive abstract interpretation of the end of a logging statement that holds a record: a path that calls the hook has established that a hook is set, that the record's channel has a virtual device, that the device is enabled, and that "
               "its priority, category and identify ranges and masks admit this record; a path that publishes the record without having called the hook has established that one of these fails. The hook gets this record, at most once, before publication; "
               "the end of a refused statement never calls it.")
RULE = "hook call <=> hook set and virtual device present and enabled and all its filter clauses; call precedes publication"
ASSUMPTIONS = ["the hook and the device's settings do not change while one record is handled", "category and identify bits are meant below 64", "records transmitted to another channel are not offered to the hook again"]
NAMES = ("a hook is set", "a virtual device is configured") + tuple(x for x in Filter.DV if x != "device takes records")


class Hook(Filter):
    """auto = (clauses, times called, published, counters updated)"""
    empty = False

    def __init__(self, m, res, w):
        super().__init__(m, res); self.w = w; self.n = {}

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st):
        st.auto = ((None,) * len(NAMES), 0, False, ())
        self.slot = self.intern(("vdev",), "call", None, 4096, 1 << 47)

    def call_preserves(self, st, ins, name, key):
        return key[0] == ("s", self.slot) or kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)

    def field(self, st, f):
        return self.memlin(st, "LogData." + f)
    def chlin(self, st): return self.field(st, "channel_id_")
    def inputs(self, st): return self.field(st, "priority_"), self.field(st, "category_"), self.field(st, "identify_")

    def upd(self, st, cond=None):
        cl, called, pub = st.auto[:3]
        if called or pub: return
        out = []
        h = None
        for k, v in st.mem.items():
            if k[0] == ("s", self.slot): h = self.plin(st, v) if v[0] == "P" else self.lin(st, v)
        out.append(None if h is None else self.decide(st, ("ne", h)))
        ch = self.chlin(st)
        same = lambda p: ch is not None and self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, ch)
        d = self.memlin(st, "Channel.virtual_device_id_", same)
        out.append(None if d is None else self.decide(st, ("ge", d)))
        if d is not None and ch is not None:
            dv = self.dev(st, (None,) * len(self.DV), d, self.bit_atoms(st, cond))
            out += [x for x, n in zip(dv, self.DV) if n != "device takes records"]
        else: out += [None] * (len(NAMES) - 2)
        # a device number that is no device of the channel admits nothing
        size = self.memlin(st, "Channel.device_size_", same)
        if d is not None and size is not None and self.decide(st, ("ge", ladd(d, size, -1))) is True: out[1] = False
        st.auto = (tuple(a if a is not None else b for a, b in zip(cl, out)), called, pub) + st.auto[3:]

    def on_branch(self, st, ins, cond, taken):
        self.upd(st, cond if taken else (cnot(cond) if cond else None))

    def on_call(self, st, ins, name, args):
        if name.endswith("RefVirtualDevice"):
            self.hit("looks at the hook")
            return [(st, ("P", ("s", self.slot), ()))]
        if not name and "ind" in ins.x:
            t = self.val(st, ins.x["ind"])
            mine = any(k[0] == ("s", self.slot) and v == t for k, v in st.mem.items())
            if not mine: return None
            self.hit("hook calls")
            self.upd(st)
            cl, called, pub = st.auto[:3]
            if self.empty: self.res.bad(self.w + "/refused", ins.where(), "the hook is called for a statement that holds no record")
            self.res.check(not called, self.w + "/twice", ins.where(), "the hook can be called twice for one record")
            self.res.check(not pub, self.w + "/late", ins.where(), "the hook is called after the record was published: it may already be another record")
            for n, x in zip(NAMES, cl): self.res.check(x is True, "%s/call/%s" % (self.w, n), ins.where(), "the hook can be called without '%s' being established" % n)
            self.res.check(len(args) == 1 and self.isrecord(st, args[0]), self.w + "/other-record", ins.where(), "the hook is given something else than the record being logged")
            st.auto = (cl, called + 1 if called < 2 else 2, pub) + st.auto[3:]
            return None
        if name.endswith(("::PushLog", "::PushChannel")):
            self.hit("publications")
            self.upd(st)
            cl, called, pub = st.auto[:3]
            if not called and not self.empty:
                self.res.check(False in cl, self.w + "/missed", ins.where(), "a record is published without having been offered to the hook, although nothing shows that the hook or its device refuses it (%s)" %
                               ", ".join("%s: %s" % (n, {True: "yes", None: "not looked at"}[x]) for n, x in zip(NAMES, cl) if x is not False), what="publication without hook decided by a clause")
            st.auto = (cl, called, True) + st.auto[3:]
        return None

    def isrecord(self, st, a):
        d = next((v for k, v in st.mem.items() if k[0] == ("arg", 0) and kcls(k) == "LogStream.log_data_"), None)
        return a[0] == "P" and d is not None and (a == d or a[1] == d[1] and not [s for s in a[2] if s[0] == "f"])


def analyse(m, res, cls=None):
    from c06 import seed
    f = m.fn("FNLog::LogStream::~LogStream"); out = []
    for empty in (False, True):
        e = (cls or Hook)(m, res, "empty" if empty else "end"); e.empty = empty
        e.f = f; e.ibnd = {}
        st0 = new_state(); seed(e, st0, 0, empty)
        e.run(f, init=st0); res.fns.add(f.name); out.append(e)
    return out


def run(res, config):
    m = ctx.module(config, keep=("^FNLog::PushLog$", "^FNLog::PushChannel$"))
    e = analyse(m, res)[0]
    for k in ("looks at the hook", "hook calls", "publications"): res.need(e.n.get(k, 0), k)
