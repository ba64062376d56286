"""C05: the memory orders of the queue protocol."""
import ctx
from ring import *

EXPLANATION = ("Path-sensitive abstract interpretation of producers and dispatchers with the memory order of every atomic access. For every advance of an index, the evidence it rests on "
               "(mark or index loads) must be an acquire read and the advance itself a release where another thread draws the right to touch the record from it; marks that hand a record over are "
               "release stores; and the re-check after a mark is sequentially consistent with it, so that two threads cannot both miss the other.")
RULE = "hand-over chain: record written -> mark release -> mark acquire -> publication release -> publication acquire -> record read -> mark release -> mark acquire -> free index release -> free index acquire -> record written"
ASSUMPTIONS = ["the orders are judged by the C++ memory model's synchronises-with and single total order rules, not by one processor's"]


class Orders(Ring):
    consumer = False

    def atom(self, ok, k, ins, msg):
        self.hit("orders checked")
        self.res.check(ok, self.w + "/" + k, ins.where(), msg)

    def advance(self, st, ins, cl, ring, e, n):
        ent = self.entry(st, cl, ring); o = ins.x.get("ord")
        if cl == "RingBuffer.hold_idx_":
            x = self.seen(ent, "RingBuffer.read_idx_")
            if x: self.atom(x[2] in ACQ, "room-acquire", ins, "a slot is reserved on a reading of the free index that does not acquire: the dispatcher may still be reading the record that is overwritten")
        elif cl == "RingBuffer.write_idx_":
            x = self.seen(ent, "mark")
            if x: self.atom(x[2] in ACQ, "complete-acquire", ins, "a slot is published on a reading of its mark that does not acquire")
            self.atom(o in REL, "publish-release", ins, "the publication of records is not a release")
        elif cl == "RingBuffer.proc_idx_":
            x = self.seen(ent, "RingBuffer.write_idx_")
            if x: self.atom(x[2] in ACQ, "dispatch-acquire", ins, "a record is dispatched on a reading of the publication index that does not acquire: its contents may not be visible")
        elif cl == "RingBuffer.read_idx_":
            x = self.seen(ent, "mark")
            if x: self.atom(x[2] in ACQ, "released-acquire", ins, "a slot is made reusable on a reading of its mark that does not acquire")
            self.atom(o in REL, "reuse-release", ins, "making slots reusable is not a release")
        self.drop(st, cl)

    def flag(self, st, v): st.auto = st.auto[:2] + (v,)

    def mark(self, st, ins, ring, slot, v):
        o = ins.x.get("ord")
        if self.same(st, v, lc(self.READY)):
            self.atom(o in REL, "ready-release", ins, "a record is marked complete without a release: its contents may become visible later")
            self.hit("completions")
            if not self.consumer: self.flag(st, "sc" if o == "seq_cst" else "weak"); self.drop(st, "RingBuffer.write_idx_")
        elif self.same(st, v, lc(self.INVALID)):
            self.atom(o in REL, "free-release", ins, "a slot is released without a release store: the record may be overwritten while it is read")
            self.hit("releases")
            if self.consumer: self.flag(st, "sc" if o == "seq_cst" else "weak"); self.drop(st, "RingBuffer.read_idx_")

    def on_fence(self, st, ins):
        if ins.x.get("ord") == "seq_cst" and st.auto[2] in ("sc", "weak"): self.flag(st, "fence")

    def on_atomic(self, st, ins, kind, ptr, vals, res):
        cl = self.cls(ptr)
        idx = "RingBuffer.read_idx_" if self.consumer else "RingBuffer.write_idx_"
        if kind == "load" and cl in (idx, MARK) and st.auto[2] in ("sc", "weak"):
            self.hit("re-checks")
            o = ins.x.get("ord")
            self.atom(st.auto[2] == "sc" and o == "seq_cst", "recheck-" + ("mark" if cl == MARK else "index"), ins,
                      "after marking a slot the %s is read without sequential consistency: two threads can both miss the other's mark and leave records behind" % ("next mark" if cl == MARK else "index"))
        super().on_atomic(st, ins, kind, ptr, vals, res)

    def nonatomic(self, st, ins, cl):
        self.res.bad(self.w + "/nonatomic", ins.where(), "%s is accessed without atomicity" % cl)


class Dispatch(Orders):
    consumer = True
    max_disjuncts = 1
    keep_record = True


def run(res, config):
    m = ctx.module(config)
    md = ctx.module(config, keep=ctx.DEVICES)
    for name, label in (("vroot_hold", "HoldChannel"), ("vroot_push", "PushChannel"), ("vroot_transmit", "TransmitChannel"),
                        ("FNLog::LogStream::LogStream", "LogStream"), ("FNLog::LogStream::~LogStream", "~LogStream"), ("FNLog::EnterProcChannel", "dispatch")):
        mm = md if label == "dispatch" else m
        fns = [mm.fn(name)] if name.startswith("vroot") or "Enter" in name else [f for f in m.fns_rx("^" + name + "$") if "~" in name or len(f.args) >= 8]
        res.need(len(fns), label)
        for fn in fns:
            e = (Dispatch if label == "dispatch" else Orders)(mm, res, label); e.run(fn); res.fns.add(fn.name)
            res.need(e.n.get("orders checked", 0), "orders checked in " + label)
            if label in ("PushChannel", "TransmitChannel", "~LogStream"): res.need(e.n.get("completions", 0), "completions in " + label)
            if label in ("PushChannel", "~LogStream", "dispatch"): res.need(e.n.get("re-checks", 0), "re-checks in " + label)
    res.need(1, "queue roots")
