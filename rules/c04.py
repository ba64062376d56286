"""C04: complete records only, each dispatched once, in queue order; slots are reused only after dispatch; nothing is left behind."""
import ctx
from ring import *

EXPLANATION = ("Path-sensitive abstract interpretation of publication and dispatch. The publication index advances by one, by compare-and-exchange, only over a slot "
               "whose mark was read as ready; the dispatch index advances by one only when the publication index read after it differs; the dispatcher touches only the slot "
               "it claimed and gives it up exactly once, after the last use; the free index advances by one only over a slot whose mark was read as free and "
               "when the dispatch index read after it differs. After making a slot ready (free), a path ends only with evidence that the index cannot advance further.")
RULE = "slot typestate: published in order -> claimed once -> dispatched by the claimant only -> released once -> reusable"
ASSUMPTIONS = ["the obligations other than turn/* assume fewer than one full turn of the ring passes between reading an index and the compare-and-exchange on it"]


class Queue(Ring):
    consumer = False

    def base(self, st, ins, cl, ring, e, n):
        w = self.w + "/" + ring_names(cl)
        ent = self.entry(st, cl, ring)
        self.res.check(ent is not None and self.same(st, ent[2][1], e), w + "/expected", ins.where(), "the %s index is advanced from a value that was not read from it" % ring_names(cl))
        self.res.check(self.isnext(st, e, n), w + "/successor", ins.where(), "the %s index does not advance by exactly one slot" % ring_names(cl))
        self.turn(st, ins, cl, e, n)
        return ent

    def advance(self, st, ins, cl, ring, e, n):
        w = self.w + "/" + ring_names(cl)
        self.hit(ring_names(cl) + " advances")
        if cl == "RingBuffer.hold_idx_": return
        ent = self.base(st, ins, cl, ring, e, n)
        if cl == "RingBuffer.write_idx_":
            x = self.seen(ent, "mark")
            self.res.check(x is not None and self.same(st, x[1][1], lc(self.READY)), w + "/complete", ins.where(), "a slot can be published that was not seen complete")
        elif cl == "RingBuffer.proc_idx_":
            x = self.seen(ent, "RingBuffer.write_idx_")
            self.res.check(x is not None and self.differ(st, x[1][1], e), w + "/published", ins.where(), "a slot can be dispatched that was not seen published")
            o = st.auto[0]
            self.res.check(o is None or o[0] == "gone", w + "/unreleased", ins.where(), "the next record is claimed although the slot of the previous one was not released")
            if o is not None and o[0] == "gone": self.settled(st, ins)
            self.own(st, ("own", ("lin", e), ("lin", ring)))
        elif cl == "RingBuffer.read_idx_":
            x = self.seen(ent, "mark"); y = self.seen(ent, "RingBuffer.proc_idx_")
            self.res.check(x is not None and self.same(st, x[1][1], lc(self.INVALID)), w + "/released", ins.where(), "a slot can become reusable that was not seen released")
            self.res.check(y is not None and self.differ(st, y[1][1], e), w + "/dispatched", ins.where(), "a slot can become reusable that was not seen claimed for dispatch")
        self.drop(st, cl)
        if st.auto[2] == "settled" and cl == ("RingBuffer.read_idx_" if self.consumer else "RingBuffer.write_idx_"): self.flag(st, "open")

    def flag(self, st, v):
        st.auto = st.auto[:2] + (v,)

    def on_branch(self, st, ins, cond, taken):
        if st.auto[2] == "open" and self.evidence(st): self.flag(st, "settled")

    def evidence(self, st):
        """evidence that the index cannot advance further"""
        f, other, val = ("RingBuffer.read_idx_", "RingBuffer.proc_idx_", self.INVALID) if self.consumer else ("RingBuffer.write_idx_", "RingBuffer.hold_idx_", self.READY)
        if not self.consumer and self.stopped(st): return True
        ent = next((e for e in st.auto[1] if e[0] == f), None)
        if ent is None: return False
        x = self.seen(ent, other); y = self.seen(ent, "mark")
        return (x is not None and self.same(st, x[1][1], ent[2][1])) or (y is not None and self.differ(st, y[1][1], lc(val)))

    def settled(self, st, ins):
        self.hit("exits with the index settled")
        good = st.auto[2] == "settled" or self.evidence(st)
        if self.consumer:
            self.res.check(good, self.w + "/read/left-behind", ins.where(), "released slots can be left unusable (no evidence that the free index cannot advance)")
        else:
            self.res.check(good, self.w + "/publication/left-behind", ins.where(), "a producer can leave complete records unpublished behind it (no evidence that the publication index cannot advance)")

    def plain(self, st, ins, cl, kind):
        if cl == MARK: self.res.bad(self.w + "/mark-rmw", ins.where(), "a slot mark is changed in an unexpected way"); return
        self.res.bad(self.w + "/plain-" + ring_names(cl), ins.where(), "the %s index is changed without a compare-and-exchange" % ring_names(cl))

    def nonatomic(self, st, ins, cl):
        self.res.bad(self.w + "/nonatomic", ins.where(), "%s is accessed without atomicity" % cl)

    def mark(self, st, ins, ring, slot, v):
        if slot is None: return
        o = st.auto[0]
        if self.consumer:
            good = isinstance(o, tuple) and o[0] == "own" and self.same(st, o[1][1], slot) and self.same(st, o[2][1], ring)
            self.res.check(good, self.w + "/release-slot", ins.where(), "a slot other than the one just dispatched is released, or one is released twice")
            self.res.check(self.same(st, v, lc(self.INVALID)), self.w + "/release-value", ins.where(), "a dispatched slot is not marked free")
            self.own(st, ("gone",)); self.drop(st, "RingBuffer.read_idx_"); self.flag(st, "open"); self.hit("releases")
        else:
            if self.same(st, v, lc(self.READY)):
                self.own(st, ("gone",)); self.drop(st, "RingBuffer.write_idx_"); self.drop(st, "state"); self.flag(st, "open"); self.hit("completions")
            else: self.own(st, None)

    def record(self, st, ins, slot, ring, ptr):
        if not self.consumer: return
        o = st.auto[0]
        self.hit("record accesses")
        w = self.w
        if not isinstance(o, tuple): self.res.bad(w + "/unclaimed", ins.where(), "a record is accessed that was not claimed"); return
        if o[0] == "gone": self.res.bad(w + "/after-release", ins.where(), "a record is accessed after its slot was released"); return
        self.res.check(slot is not None and self.same(st, o[1][1], slot) and self.same(st, o[2][1], ring), w + "/other-slot", ins.where(), "a record other than the claimed one is accessed")

    def on_ret(self, st, ins, v):
        o = st.auto[0]
        if self.consumer:
            self.res.check(not (isinstance(o, tuple) and o[0] == "own"), self.w + "/never-released", ins.where(), "dispatch can end without releasing the slot it claimed")
            if isinstance(o, tuple) and o[0] == "gone": self.settled(st, ins)
        elif isinstance(o, tuple) and o[0] == "gone": self.settled(st, ins)


class Consumer(Queue):
    consumer = True
    max_disjuncts = 1
    keep_record = True

    def touch(self, st, ins, ptr, v=None):
        pp = ppath(ptr)
        if has(pp, "RingBuffer.buffer_"): self.record(st, ins, index_of(pp, "RingBuffer.buffer_"), self.ringof(pp), ptr)


def run(res, config):
    m = ctx.module(config)
    md = ctx.module(config, keep=ctx.DEVICES)
    for name, label, adv in (("vroot_push", "PushChannel", "completions"), ("vroot_transmit", "TransmitChannel", "completions")):
        fn = m.fn(name)
        e = Queue(m, res, label); e.run(fn)
        res.fns.add(fn.name)
        res.need(e.n.get("publication advances", 0) + e.n.get("write advances", 0), "publication advances in " + label)
        res.need(e.n.get(adv, 0), "completions in " + label)
        res.need(e.n.get("exits with the index settled", 0), "exits after completion in " + label)
    for fn in m.fns_rx(r"^FNLog::LogStream::~LogStream$"):
        e = Queue(m, res, "~LogStream"); e.run(fn); res.fns.add(fn.name)
        res.need(e.n.get("write advances", 0), "publication advances in ~LogStream")
    fn = md.fn("FNLog::EnterProcChannel")
    e = Consumer(md, res, "dispatch"); e.run(fn); res.fns.add(fn.name)
    for k in ("dispatch advances", "read advances", "releases", "record accesses", "exits with the index settled"):
        res.need(e.n.get(k, 0), k + " in the dispatcher")
