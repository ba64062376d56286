"""C02: every record that becomes visible ends with a newline and a terminator inside its buffer."""
import ctx
from ring import *
import c01

EXPLANATION = ("Path-sensitive abstract interpretation of every function that completes a record (publication, transmission, the stream's destructor, recovery of a shared queue): where the slot is marked complete, "
               "or, in recovery, where the publication index passes it, the stored length L and the stored bytes are known: content[L-1] is a newline, content[L] is zero, and L is inside the buffer.")
RULE = "at each completion of a slot: 1 <= L <= size-1, content[L-1] == '\\n', content[L] == 0 with L the length stored for that slot"
ASSUMPTIONS = ["recovery runs while no other process uses the segment", "the length found in a segment may have any value"]


class Ends(Ring):
    max_disjuncts = 3
    keep_record = True
    track_bytes = True
    alone = False       # nobody else uses the queue (recovery): its indices are plain memory

    def volatile(self, cls): return False if self.alone else super().volatile(cls)
    def stable_atomic(self, cls): return self.alone and cls in RING_IDX or super().stable_atomic(cls)

    def setup(self, st):
        super().setup(st)
        # publication is handed a record whose length is within its text (C01)

    def sym_range(self, st, cls, ins):
        if cls == "LogData.content_len_": return None if self.alone else (0, self.SIZE)
        if cls in RING_IDX and self.alone: return None
        return super().sym_range(st, cls, ins)

    @property
    def SIZE(self): return self.m.field_size("FNLog::LogData", "content_")

    def on_call(self, st, ins, name, args):
        r = self.string_call(st, ins, name, args)
        return r

    def cells(self, st, slot, ring):
        """(length lin, {index lin: byte}) stored for a slot"""
        L = None; by = []
        for k, v in st.mem.items():
            p = parse(k[1])
            if not p or not has(p, "RingBuffer.buffer_"): continue
            ix = index_of(p, "RingBuffer.buffer_")
            if not self.same(st, ix, slot) or not self.same(st, self.ringof(p), ring): continue
            if p[-1][0] == "LogData.content_len_" and v[0] == "L": L = v[1]
            elif p[-1][0] == "LogData.content_":
                i = ZERO
                for x, _ in p[-1][1]: i = ladd(i, x)
                if v[0] == "L": by.append((i, v[1]))
        return L, by

    def complete(self, st, ins, ring, slot, how):
        self.hit(how)
        L, by = self.cells(st, slot, ring)
        if not self.res.check(L is not None, self.w + "/length", ins.where(), "a record is completed although its length was not stored on this path", what=self.w + ": length stored"): return
        at = lambda i, c: any(self.same(st, x, i) and self.same(st, b, lc(c)) for x, b in by)
        self.res.check(at(ladd(L, lc(-1)), 10), self.w + "/newline", ins.where(), "a record can be completed without a newline as its last counted character", what=self.w + ": newline at length - 1")
        self.res.check(at(L, 0), self.w + "/terminator", ins.where(), "a record can be completed without a terminating zero after its text", what=self.w + ": zero at length")
        self.res.check(self.prove_ge(st, ladd(L, lc(-1))) and self.prove_ge(st, ladd(lc(self.SIZE - 1), L, -1)), self.w + "/bounds", ins.where(),
                       "the end of a completed record can lie outside its text: length %s..%s of %d" % (self.lo(st, L), self.hi(st, L), self.SIZE), what=self.w + ": end within the text")

    def mark(self, st, ins, ring, slot, v):
        if slot is None: return
        if self.same(st, v, lc(self.READY)):
            if self.alone: st.auto = (("mark", ("lin", slot), ("lin", ring)),) + st.auto[1:]
            else: self.complete(st, ins, ring, slot, "completions")

    def plain(self, st, ins, cl, kind):
        if cl == "RingBuffer.write_idx_" and self.alone and st.auto[0] and st.auto[0][0] == "mark":
            _, slot, ring = st.auto[0]
            self.complete(st, ins, ring[1], slot[1], "recoveries")
            st.auto = (None,) + st.auto[1:]


class Recover(Ends):
    max_disjuncts = 12
    alone = True


class Text(c01.Bounds):
    """bounds of what recovery writes: the length found in the segment is arbitrary"""
    def sym_range(self, st, cls, ins):
        if cls == "LogData.content_len_": return None
        return super().sym_range(st, cls, ins)


def run(res, config):
    m = ctx.module(config)
    n = 0
    for f in [m.fn("vroot_push"), m.fn("vroot_transmit")] + m.fns_rx(r"^FNLog::LogStream::~LogStream$"):
        e = Ends(m, res, f.name.replace("vroot_", "").split("::")[-1]); e.run(f); res.fns.add(f.name)
        n += e.n.get("completions", 0)
    res.need(n, "completions", 3)
    f = m.fn("FNLog::LoadSharedMemory", body=True)
    e = Recover(m, res, "recovery"); e.run(f); res.fns.add(f.name)
    res.need(e.n.get("recoveries", 0), "recovered records")
    t = Text(m, res, "recovery-text", {}); t.run(f)
    res.need(t.n.get("text writes", 0), "text writes in recovery")
