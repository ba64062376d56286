"""The queue protocol, path by path (used by C03, C04, C05).

auto = (owner, entries, pending)
owner   None | "any" (holds the slot its stream object names) | ("own", ("lin", slot), ("lin", ring)) | ("gone",) after the slot was given up
entries per index field: (field, ("lin", ring), ("lin", value read), seen) with seen = ((what, ("lin", value), order), ...) read after it
pending: a mark was stored without the full barrier the re-reading of the index needs
"""
from common import *

SHORT = {"RingBuffer.write_idx_": "write", "RingBuffer.hold_idx_": "reserve", "RingBuffer.read_idx_": "read", "RingBuffer.proc_idx_": "dispatch"}
ACQ = ("acquire", "acq_rel", "seq_cst", "consume")
REL = ("release", "acq_rel", "seq_cst")


class Ring(Base):
    max_disjuncts = 3
    keep_record = False

    def __init__(self, mod, res, where, start=None):
        super().__init__(mod)
        self.res = res; self.w = where; self.start = start
        self.LEN = mod.structs["FNLog::RingBuffer"]["consts"].get("BUFFER_LEN")
        if not self.LEN:
            self.LEN = mod.field_size("FNLog::RingBuffer", "buffer_") // mod.struct("FNLog::LogData")["size"]
        self.READY = mod.enum("MARK_READY"); self.INVALID = mod.enum("MARK_INVALID"); self.HOLD = mod.enum("MARK_HOLD"); self.RUN = mod.enum("CHANNEL_STATE_RUNNING")
        self.n = {}

    def hit(self, what): self.n[what] = self.n.get(what, 0) + 1

    def volatile(self, cls): return cls in RING_IDX or cls == MARK or cls == "Channel.channel_state_"

    def sym_range(self, st, cls, ins):
        if cls in RING_IDX: return (0, self.LEN - 1)
        return None

    def setup(self, st):
        st.auto = (self.start, (), None)

    def ringof(self, p):
        r = index_of(p, "SHMLogger.ring_buffers_")
        return r if r is not None else ZERO

    def entry(self, st, f, ring):
        for e in st.auto[1]:
            if e[0] == f and self.same(st, e[1][1], ring): return e
        return None

    def put(self, st, ent):
        rest = [e for e in st.auto[1] if e[0] != ent[0]]
        st.auto = (st.auto[0], tuple(sorted(rest + [ent], key=lambda e: e[0])), st.auto[2])

    def drop(self, st, f):
        st.auto = (st.auto[0], tuple(e for e in st.auto[1] if e[0] != f), st.auto[2])

    def own(self, st, o):
        st.auto = (o,) + st.auto[1:]

    def see(self, st, what, ring, val, ord, slot=None):
        out = []
        for (f, r, v, seen) in st.auto[1]:
            if self.same(st, r[1], ring) and (slot is None or self.same(st, v[1], slot)) and f != what:
                seen = tuple(sorted([x for x in seen if x[0] != what] + [(what, ("lin", val), ord)], key=lambda x: x[0]))
            out.append((f, r, v, seen))
        st.auto = (st.auto[0], tuple(out), st.auto[2])

    def isnext(self, st, e, n):
        d = self.defof(st, n)
        if d and d[0] == "rem" and d[2] == self.LEN and self.same(st, d[1], ladd(e, lc(1))): return True
        if self.same(st, n, ladd(e, lc(1))) and self.prove_ge(st, ladd(lc(self.LEN - 1), n, -1)): return True
        if self.same(st, n, ZERO) and self.same(st, e, lc(self.LEN - 1)): return True
        return False

    def turn(self, st, ins, cl, e, n):
        """an index that takes the same value again after one turn of the ring: the compare-and-exchange cannot tell the turns apart"""
        if self.same(st, n, ladd(e, lc(1))) and self.hi(st, n) > self.LEN: self.res.ok(self.w + " index does not wrap"); return
        self.res.bad("turn/" + ring_names(cl), ins.where(), "the %s index has the same value again after one full turn of the ring, so its compare-and-exchange "
                     "can succeed on evidence that is one turn old" % ring_names(cl))

    def num(self, st, v):
        return self.lin(st, v)

    # ---- events
    def on_atomic(self, st, ins, kind, ptr, vals, res):
        cl = self.cls(ptr); pp = ppath(ptr)
        if cl in RING_IDX:
            ring = self.ringof(pp)
            self.index_event(st, ins, cl, kind, res)
            if kind == "load":
                v = self.num(st, res)
                self.see(st, cl, ring, v, ins.x.get("ord"))
                self.put(st, (cl, ("lin", ring), ("lin", v), ()))
            elif kind == "cas":
                e, n = self.num(st, vals[0]), self.num(st, vals[1])
                if res: self.advance(st, ins, cl, ring, e, n)
                else:
                    old = st.env.get(ins.id)
                    if old and old[0] == "A":
                        o = self.num(st, old[1][0])
                        try: self.set_bnd(st, o[1][0][0], 0, self.LEN - 1)
                        except Exception: pass
                        self.see(st, cl, ring, o, ins.x.get("ford"))
                        self.put(st, (cl, ("lin", ring), ("lin", o), ()))
            else:
                self.plain(st, ins, cl, kind)
        elif cl == MARK:
            slot = index_of(pp, "RingBuffer.buffer_"); ring = self.ringof(pp)
            if kind == "load":
                if slot is not None: self.see(st, "mark", ring, self.num(st, res), ins.x.get("ord"), slot)
            elif kind == "store" or (kind == "rmw" and vals[0] == "xchg"):
                v = self.num(st, vals[-1])
                self.mark(st, ins, ring, slot, v)
            else:
                self.plain(st, ins, cl, kind)
        else:
            self.touch(st, ins, ptr)
            if kind == "load": self.read_state(st, cl, res)

    def read_state(self, st, c, v):
        if c == "Channel.channel_state_": self.put(st, ("state", ("lin", ZERO), ("lin", self.num(st, v)), ()))

    def on_load(self, st, ins, p, v):
        c = self.cls(p)
        if c in RING_IDX or c == MARK: self.nonatomic(st, ins, c)
        else: self.touch(st, ins, p)
        self.read_state(st, c, v)

    def on_store(self, st, ins, p, v):
        c = self.cls(p)
        if c in RING_IDX or c == MARK: self.nonatomic(st, ins, c)
        else: self.touch(st, ins, p, v)

    def on_memop(self, st, ins, name, args, n):
        for a in args[:2]:
            if a[0] == "P": self.touch(st, ins, a)

    def on_call(self, st, ins, name, args):
        for a in args:
            if a[0] == "P": self.touch(st, ins, a)
        return None

    def touch(self, st, ins, ptr, v=None):
        pp = ppath(ptr)
        slot = index_of(pp, "RingBuffer.buffer_")
        if slot is not None or (pp and pp[-1][0].startswith("LogData.")) :
            if has(pp, "RingBuffer.udp_buffer_") or ptr[1][0] == "arg" and slot is None: return
            self.record(st, ins, slot, self.ringof(pp), ptr)

    def seen(self, ent, what):
        for x in ent[3] if ent else ():
            if x[0] == what: return x
        return None

    def stopped(self, st):
        e = next((e for e in st.auto[1] if e[0] == "state"), None)
        return e is not None and self.differ(st, e[2][1], lc(self.RUN))

    # ---- hooks of the rules
    def advance(self, st, ins, cl, ring, e, n): pass
    def plain(self, st, ins, cl, kind): pass
    def nonatomic(self, st, ins, cl): pass
    def mark(self, st, ins, ring, slot, v): pass
    def record(self, st, ins, slot, ring, ptr): pass
    def index_event(self, st, ins, cl, kind, res): pass


def ring_names(cl): return SHORT.get(cl, cl)
