"""C03: a queue slot belongs to one producer at a time, and only that producer's record is written into it."""
import ctx
from ring import *

EXPLANATION = ("Path-sensitive abstract interpretation of the producer side. Every change of the reservation index must be a compare-and-exchange of the value "
               "read to its successor in the ring, with the free index read afterwards and found different from that successor; every access to a record in the "
               "queue must fall on the slot the path holds, between its reservation and its publication; the stream object that is handed out names exactly that slot.")
RULE = "slot typestate: free -> reserved by compare-and-exchange -> written by the holder only -> published"
ASSUMPTIONS = ["the obligations other than turn/* assume fewer than one full turn of the ring between reading an index and the compare-and-exchange on it",
               "a stream object is used by one thread at a time"]


OWNERS = re.compile(r"FNLog::LogStream::~?LogStream\b")


def static_path(f, v):
    """Struct.field a pointer operand names, '' when unknown"""
    while v[0] == "i":
        d = f.inst.get(v[1])
        if d is None or d.op != "getelementptr": return ""
        fs = [p for p in d.x["path"] if p[0] == "f" and p[1].startswith("FNLog")]
        if fs: return fs[-1][1].split("::")[-1] + "." + fs[-1][3]
        v = d.a[0]
    return ""


class Hold(Ring):
    def advance(self, st, ins, cl, ring, e, n):
        if cl != "RingBuffer.hold_idx_":
            return
        self.hit("reservations")
        w = self.w
        self.res.check(st.auto[0] is None, w + "/one-slot", ins.where(), "a second slot is reserved while one is held")
        ent = self.entry(st, cl, ring)
        self.res.check(ent is not None and self.same(st, ent[2][1], e), w + "/reserve/expected", ins.where(),
                       "the slot reserved is not the one the reservation index was read at")
        self.res.check(self.isnext(st, e, n), w + "/reserve/successor", ins.where(), "a reservation does not move the reservation index by exactly one slot")
        self.turn(st, ins, cl, e, n)
        x = self.seen(ent, "RingBuffer.read_idx_")
        self.res.check(x is not None and self.differ(st, x[1][1], n), w + "/reserve/free", ins.where(),
                       "a slot can be reserved without establishing, after reading the reservation index, that the queue has room")
        if self.chan is not None:
            self.res.check(self.same(st, ring, self.chan), w + "/reserve/queue", ins.where(), "the slot is reserved in the queue of another channel")
        self.own(st, ("own", ("lin", e), ("lin", ring)))

    chan = None

    def plain(self, st, ins, cl, kind):
        if cl == MARK: self.res.bad(self.w + "/mark-rmw", ins.where(), "a slot mark is changed in an unexpected way"); return
        self.res.bad(self.w + "/plain-" + ring_names(cl), ins.where(), "the %s index is changed without a compare-and-exchange" % ring_names(cl))

    def nonatomic(self, st, ins, cl):
        self.res.bad(self.w + "/nonatomic", ins.where(), "%s is accessed without atomicity" % cl)

    def mark(self, st, ins, ring, slot, v):
        o = st.auto[0]
        if slot is None: return
        good = o == "any" or (isinstance(o, tuple) and o[0] == "own" and self.same(st, o[1][1], slot) and self.same(st, o[2][1], ring))
        if good and o == "any":
            s = slot[1][0][0] if len(slot[1]) == 1 and slot[0] == 0 else None
            good = s is not None and self.syms[s].kind == "load" and self.syms[s].data[0] == "LogStream.hold_idx_"
        self.res.check(good, self.w + "/mark-slot", ins.where(), "the mark of a slot that is not held is changed")
        if self.same(st, v, lc(self.READY)):
            self.hit("publications"); self.own(st, ("gone",))
        elif not self.same(st, v, lc(self.HOLD)):
            self.res.check(self.differ(st, v, lc(self.READY)), self.w + "/mark-value", ins.where(), "an unknown value is stored as slot mark")
            self.own(st, ("gone",))

    def record(self, st, ins, slot, ring, ptr):
        o = st.auto[0]
        self.hit("record accesses")
        if o == "any": self.res.ok(self.w + " record access"); return
        if o is None: self.res.bad(self.w + "/unheld", ins.where(), "a record in the queue is accessed although no slot is held"); return
        if o[0] == "gone": self.res.bad(self.w + "/after-publication", ins.where(), "a record is accessed after its slot was given up"); return
        if slot is None: self.res.bad(self.w + "/other-slot", ins.where(), "a record other than the reserved one is accessed"); return
        self.res.check(self.same(st, o[1][1], slot) and self.same(st, o[2][1], ring), self.w + "/other-slot", ins.where(), "a slot other than the reserved one is accessed")


class Ctor(Hold):
    def call_preserves(self, st, ins, name, key):
        # the members of a stream are written by its constructors and destructor only (checked below)
        return kcls(key).startswith("LogStream.") or super().call_preserves(st, ins, name, key)

    def on_ret(self, st, ins, v):
        o = st.auto[0]
        hold = data = None
        for k, val in st.mem.items():
            if k[0] == ("arg", 0):
                c = kcls(k)
                if c == "LogStream.hold_idx_": hold = val
                elif c == "LogStream.log_data_" or (c == "" and val[0] == "P"): data = val
        if o is None:
            self.res.check(data is not None and data[0] == "P" and data[1] == ("null",), self.w + "/refused-object", ins.where(),
                           "a stream that holds no slot does not say so")
            self.hit("refused streams"); return
        if o[0] == "gone":
            self.res.bad(self.w + "/published-early", ins.where(), "the constructor gives the slot up"); return
        if data is not None and data[0] == "P" and data[1] == ("null",):
            return   # a slot that is held and not handed out is C06's concern
        pp = ppath(data) if data else []
        self.res.check(index_of(pp, "RingBuffer.buffer_") is not None and self.same(st, index_of(pp, "RingBuffer.buffer_"), o[1][1]) and
                       self.same(st, self.ringof(pp), o[2][1]), self.w + "/object-record", ins.where(), "the stream does not write into the slot that was reserved")
        self.res.check(hold is not None and self.same(st, self.lin(st, hold), o[1][1]), self.w + "/object-slot", ins.where(),
                       "the stream remembers another slot than the one reserved")
        self.hit("accepted streams")


def run(res, config):
    m = ctx.module(config)

    def go(cls, fn, label, start=None, chan=None):
        e = cls(m, res, label, start)
        e.f = fn; e.ibnd = {}
        av = e.make_args(fn, new_state())
        if chan is not None: e.chan = av[chan][1]
        if callable(start): e.start = start(av)
        e.run(fn, args=av)
        res.fns.add(fn.name)
        for k, n in e.n.items(): res.count("%s in %s" % (k, label), n)
        return e
    e = go(Hold, m.fn("vroot_hold"), "HoldChannel", chan=1)
    res.need(e.n.get("reservations", 0), "reservations in HoldChannel")
    ctors = [f for f in m.fns_rx(r"^FNLog::LogStream::LogStream$") if len(f.args) >= 8]
    res.need(len(ctors), "LogStream constructors")
    for f in ctors:
        e = go(Ctor, f, "LogStream", chan=2)
        res.need(e.n.get("reservations", 0), "reservations in LogStream"); res.need(e.n.get("accepted streams", 0), "accepted streams")
        res.need(e.n.get("refused streams", 0), "refused streams")
    n = 0
    for f in m.fns.values():
        if not f.blocks: continue
        for i in f.insts():
            if i.op != "store": continue
            p = static_path(f, i.a[1])
            if p.startswith("LogStream."):
                n += 1
                res.check(bool(OWNERS.search(i.where())) or bool(OWNERS.search(f.name)), "stream-members/" + p, i.where(), "a stream's slot is changed by something else than its construction and destruction")
    res.need(n, "writes of stream members")
    e = go(Hold, m.fn("vroot_transmit"), "TransmitChannel", chan=1)
    res.need(e.n.get("publications", 0), "publications in TransmitChannel"); res.need(e.n.get("record accesses", 0), "record accesses in TransmitChannel")
    e = go(Hold, m.fn("vroot_push"), "PushChannel", start=lambda av: ("own", ("lin", av[2][1]), ("lin", av[1][1])))
    res.need(e.n.get("publications", 0), "publications in PushChannel")
    for f in m.fns_rx(r"^FNLog::LogStream::~LogStream$"):
        e = go(Hold, f, "~LogStream", start="any")
        res.need(e.n.get("publications", 0), "publications in ~LogStream")
