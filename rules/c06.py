"""C06: every accepted record is published exactly once."""
import ctx
from ring import *
from c03 import static_path

EXPLANATION = ("Typestate of the stream object and the slot it holds, by path-sensitive abstract interpretation: the constructor hands every slot it reserved to the object, and an object without a slot says so; "
               "the destructor publishes the slot of an object that has one exactly once (unless the channel is seen stopped) and touches nothing otherwise; moving transfers the slot and empties the source; "
               "no stream operation dereferences the record of a refused stream; a transmitted record that got a slot is published exactly once.")
RULE = "stream typestate: empty | owns one slot -> published once; moved-from = empty"
ASSUMPTIONS = ["a stream object is used by one thread at a time and its members are changed by its own construction and destruction only (checked by C03)",
               "a record whose channel is being stopped may be given up (the stop clears the queue)"]


def nullptr(v): return v is not None and v[0] == "P" and v[1] == ("null",) and not v[2]


class Life(Ring):
    """auto[2] = number of publications ("0", "1")"""
    def setup(self, st): st.auto = (self.start, (), "0")

    def advance(self, st, ins, cl, ring, e, n):
        if cl == "RingBuffer.hold_idx_":
            self.hit("reservations")
            self.res.check(st.auto[0] is None, self.w + "/second-slot", ins.where(), "a second slot is reserved for one record: the first is never published")
            self.own(st, ("own", ("lin", e), ("lin", ring)))

    def mark(self, st, ins, ring, slot, v):
        if self.same(st, v, lc(self.READY)):
            self.hit("publications")
            self.res.check(st.auto[2] in ("0", "r"), self.w + "/published-twice", ins.where(), "a record can be published twice")
            self.res.check(st.auto[0] is not None, self.w + "/published-unheld", ins.where(), "a slot is published that is not held")
            o = st.auto[0]
            if isinstance(o, tuple) and o[0] == "own" and slot is not None:
                self.res.check(self.same(st, o[1][1], slot) and self.same(st, o[2][1], ring), self.w + "/published-other", ins.where(), "another slot than the held one is published")
            elif o == "any" and slot is not None:
                s = slot[1][0][0] if len(slot[1]) == 1 and slot[0] == 0 else None
                self.res.check(s is not None and self.syms[s].kind == "load" and self.syms[s].data[0] == "LogStream.hold_idx_", self.w + "/published-other", ins.where(),
                               "another slot than the one the stream holds is published")
            st.auto = (("gone",), st.auto[1], "1")

    def on_branch(self, st, ins, cond, taken):
        if st.auto[2] == "0" and self.refused(st): st.auto = st.auto[:2] + ("r",)

    def refused(self, st):
        """the channel was seen stopped, or the numbers were seen not to exist"""
        if st.auto[2] == "r" or self.stopped(st): return True
        size = self.memlin(st, "SHMLogger.channel_size_")
        for k, v in list(st.mem.items()) :
            if kcls(k) == "LogData.channel_id_" and v[0] == "L":
                if self.decide(st, ("ge", v[1])) is False: return True
                if size is not None and self.decide(st, ("ge", ladd(v[1], size, -1))) is True: return True
        if self.chan is not None:
            if self.decide(st, ("ge", self.chan)) is False: return True
            if size is not None and self.decide(st, ("ge", ladd(self.chan, size, -1))) is True: return True
        return False

    chan = None

    def sym_range(self, st, cls, ins):
        if cls == "LogStream.hold_idx_": return (0, self.LEN - 1)
        return super().sym_range(st, cls, ins)

    def on_ret(self, st, ins, v):
        o = st.auto[0]
        if isinstance(o, tuple) and o[0] == "own" or o == "any":
            self.hit("exits holding a slot")
            self.res.check(self.refused(st), self.w + "/never-published", ins.where(), "a record that holds a slot can end without being published: the queue stalls behind it")
        elif o is not None: self.hit("exits after publication")


class Ctor(Life):
    def call_preserves(self, st, ins, name, key):
        return kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)

    def on_ret(self, st, ins, v):
        o = st.auto[0]
        f = fields(st, 0)
        if o is None:
            self.hit("refused streams")
            self.res.check(nullptr(f.get("log_data_")), self.w + "/refused-object", ins.where(), "a stream that got no slot does not say so: its end publishes a slot it does not hold")
        elif o[0] == "own":
            self.hit("accepted streams")
            d = f.get("log_data_"); h = f.get("hold_idx_"); l = f.get("logger_")
            self.res.check(d is not None and not nullptr(d), self.w + "/lost-slot", ins.where(), "a slot is reserved and not handed to the stream: it is never published and the queue stalls")
            self.res.check(h is not None and self.same(st, self.lin(st, h), o[1][1]), self.w + "/lost-slot-number", ins.where(), "the stream does not remember the slot that was reserved: it is never published")
            self.res.check(l is not None and not nullptr(l), self.w + "/lost-logger", ins.where(), "a stream that holds a slot does not know its logger")
        else: self.res.bad(self.w + "/early", ins.where(), "the constructor publishes the record")


def fields(st, arg):
    out = {}
    for k, val in st.mem.items():
        if k[0] == ("arg", arg):
            c = kcls(k)
            if c.startswith("LogStream."): out[c[10:]] = val
            elif c == "": out.setdefault("log_data_", val)
    return out


def seed(e, st, arg, null, tag="own"):
    """the members of a stream object before the call: empty, or holding a slot"""
    def put(field, v): st.mem[(("arg", arg), (("f", "FNLog::LogStream", field),))] = v
    if null:
        put("log_data_", ("P", ("null",), ())); put("logger_", ("P", ("null",), ())); put("hold_idx_", ("L", lc(-1)))
        return None
    out = {}
    for field, lo, hi in (("log_data_", 4096, 1 << 47), ("logger_", 4096, 1 << 47), ("hold_idx_", 0, e.m.structs["FNLog::RingBuffer"]["consts"].get("BUFFER_LEN", 1 << 20) - 1)):
        ptr = ("P", ("arg", arg), (("f", "FNLog::LogStream", field, e.m.field_off("FNLog::LogStream", field), 0),))
        s = e.intern(("member", arg, field), "load", ("LogStream." + field, e.memkey(ptr), ptr), lo, hi)
        v = ("L", ls(s)) if field == "hold_idx_" else ("P", ("s", s), ())
        put(field, v); out[field] = v
    return out


class Dtor(Life):
    empty = False

    def record(self, st, ins, slot, ring, ptr):
        if self.empty: self.res.bad(self.w + "/refused-access", ins.where(), "the end of a stream that holds no slot accesses a record")

    def on_ret(self, st, ins, v):
        if self.empty:
            self.hit("ends of empty streams")
            self.res.check(st.auto[2] != "1", self.w + "/publishes-refused", ins.where(), "the end of a stream that holds no slot publishes one")
            return
        if st.auto[2] == "1": self.hit("exits after publication"); return
        self.hit("exits without publication")
        self.res.check(self.refused(st), self.w + "/never-published", ins.where(), "the end of a stream that holds a slot does not publish it: the queue stalls behind it")


class Refused(Base):
    """where an operation on a stream without a record accesses one, directly or through another operation"""
    def __init__(self, m, unsafe):
        super().__init__(m); self.unsafe = unsafe; self.bad = None

    def call_preserves(self, st, ins, name, key):
        return kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)

    def on_access(self, st, ins, ptr, size, write):
        if ptr[0] == "P" and ptr[1][0] == "null" and any(f.startswith("LogData.") for f, _ in ppath(ptr)): self.bad = ins.where()

    def on_memop(self, st, ins, name, args, n):
        for a in args[:2]:
            if a[0] == "P" and a[1][0] == "null" and any(f.startswith("LogData.") for f, _ in ppath(a)): self.bad = ins.where()

    def on_call(self, st, ins, name, args):
        k = ins.x.get("fn")
        if k in self.unsafe and args and args[0] == ("P", ("arg", 0), ()): self.bad = self.unsafe[k]
        for a in args[1:]:
            if a[0] == "P" and a[1][0] == "null" and any(f.startswith("LogData.") for f, _ in ppath(a)): self.bad = ins.where()
        return None


class Ops(Base):
    """no access through the record of a refused stream"""
    def __init__(self, m, res, w):
        super().__init__(m); self.res = res; self.w = w; self.n = 0; self.live = 0

    def setup(self, st): st.auto = (0, 0)

    def call_preserves(self, st, ins, name, key):
        return kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)

    def on_access(self, st, ins, ptr, size, write):
        if ptr[0] != "P" or not any(f.startswith("LogData.") for f, _ in ppath(ptr)): return
        r = ptr[1]
        if r[0] == "null":
            self.res.bad(self.w + "/refused-access", ins.where(), "a stream operation accesses the record of a stream that has none"); return
        if r[0] != "s": return
        sy = self.syms[r[1]]
        if sy.kind != "load" or not sy.data or sy.data[0] != "LogStream.log_data_": return
        self.n += 1
        self.res.check(self.decide(st, ("eq", ls(r[1]))) is False, self.w + "/refused-access", ins.where(), "a logging statement accesses the record without checking that there is one")

    def on_call(self, st, ins, name, args):
        if "::LogStream::LogStream" in name and len(args) >= 1: st.auto = (st.auto[0] + 1, st.auto[1]); self.live += 1
        if "::LogStream::~LogStream" in name: st.auto = (st.auto[0], st.auto[1] + 1)
        return None

    def on_ret(self, st, ins, v):
        self.res.check(st.auto[0] == st.auto[1], self.w + "/ended", ins.where(), "a logging statement ends %d streams of the %d it creates" % (st.auto[1], st.auto[0]))


def run(res, config):
    m = ctx.module(config)
    ctors = [f for f in m.fns_rx(r"^FNLog::LogStream::LogStream$") if len(f.args) >= 8]
    res.need(len(ctors), "LogStream constructors")
    for f in ctors:
        e = Ctor(m, res, "LogStream"); e.run(f); res.fns.add(f.name)
        for k in ("reservations", "accepted streams", "refused streams"): res.need(e.n.get(k, 0), k)
    for f in m.fns_rx(r"^FNLog::LogStream::~LogStream$"):
        for empty in (False, True):
            e = Dtor(m, res, "~LogStream", "any"); e.empty = empty
            if empty: e.start = None
            st = new_state(); e.f = f; e.ibnd = {}
            e.chan = None
            seed(e, st, 0, empty)
            e.run(f, init=st); res.fns.add(f.name)
            for k in (("ends of empty streams",) if empty else ("publications", "exits after publication")): res.need(e.n.get(k, 0), k)
    n = 0
    for f in m.fns_rx(r"^FNLog::LogStream::LogStream$"):
        if f.blocks and len(f.args) == 2: n += 1; moved(m, res, f)
    res.need(n, "move constructors")
    ops = [f for f in m.fns.values() if f.blocks and f.args and f.aty[0] == "FNLog::LogStream" and not re.search(r"::~?LogStream$", f.name) and not re.match(r"vroot_stream_(dtor|move)", f.name)]
    unsafe = {}
    for _ in range(8):
        before = len(unsafe)
        for f in ops:
            if f.key in unsafe: continue
            e = Refused(m, unsafe); e.f = f; e.ibnd = {}
            st = new_state(); seed(e, st, 0, True)
            e.run(f, init=st); res.fns.add(f.name)
            if e.bad: unsafe[f.key] = e.bad
        if len(unsafe) == before: break
    n = 0
    for f in ops:
        if not f.name.startswith("vroot_"): continue
        n += 1
        b = unsafe.get(f.key)
        res.check(b is None, "operation/refused-access/" + f.name, b or f.name, "a stream operation accesses the record of a stream that has none", what=f.name + " leaves a refused stream alone")
    res.need(n, "stream operations", 10)
    n = 0
    for f in m.fns_rx(r"^vroot_use_"):
        e = Ops(m, res, "statement"); e.run(f); res.fns.add(f.name); n += e.live
    res.need(n, "streams created by logging statements", 5)
    f = m.fn("vroot_transmit")
    e = Life(m, res, "TransmitChannel"); e.f = f; e.ibnd = {}
    av = e.make_args(f, new_state()); e.chan = av[1][1]
    e.run(f, args=av); res.fns.add(f.name)
    for k in ("reservations", "publications", "exits after publication"): res.need(e.n.get(k, 0), k + " in TransmitChannel")


class Move(Base):
    def call_preserves(self, st, ins, name, key): return True

    def may_alias(self, st, k1, k2):
        if k1[0] != k2[0] and k1[0][0] == "arg" and k2[0][0] == "arg": return False   # the new object is not its source
        return super().may_alias(st, k1, k2)

    def on_ret(self, st, ins, v):
        d = fields(st, self.dst); s = fields(st, self.src)
        for k in ("log_data_", "logger_", "hold_idx_"):
            self.res.check(k in d and self.same(st, self.lin(st, d[k]), self.lin(st, self.given[k])), "move/takes-" + k.strip("_"), ins.where(), "a moved stream does not take over the slot of its source completely")
        self.res.check(nullptr(s.get("log_data_")), "move/empties-source", ins.where(), "the source of a move still holds its slot: it is published twice")


def moved(m, res, f):
    e = Move(m); e.res = res; e.f = f; e.ibnd = {}
    st = new_state(); e.dst, e.src = 0, 1
    e.given = seed(e, st, 1, False)
    e.run(f, init=st); res.fns.add(f.name)
