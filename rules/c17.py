"""C17: a shared memory queue is validated before use; recovery keeps complete records."""
import ctx
from shm import *

EXPLANATION = ("Path-sensitive abstract interpretation of LoadSharedMemory with every failure of the system calls: for a segment that existed before, what is known about its content (size, id, number of channels and every index of every queue, by a sweep over all queues) at the moment it becomes the logger's storage, "
               "which of its fields are accessed before it is known to be of this program's kind, which slots and indices recovery writes, and whether a refused segment is detached. For a new segment and for private memory: that every queue starts empty.")
RULE = "published => size and id match, 0 <= channels <= maximum, every queue: all indices inside, write == hold, dispatch == read; recovery writes only slots from the write index up to the reserve index, marks each complete before passing it, never moves the read index"
ASSUMPTIONS = ["only one process uses the segment while it is being loaded", "the lengths and pointers inside records that were already complete are not re-validated (DESIGN.md)"]
W, H, R, P = RING_IDX
POS, SLOT, PUB, TEXT, NUL = 0, 1, 2, 3, 4      # extra: the sweep over the queues; slot being recovered ("at"|"marked"|"next", position, for "next" also the slot before); the storage the logger got (address, id, kind); where the recovery text ends; where the content was terminated


class Validate(Storage):
    max_disjuncts = 10

    def __init__(self, m, res):
        super().__init__(m, res, "load", "C17")
        self.lead = (None, None, None, ('lin', lc(-1)), ('lin', lc(-1)))
        self.NRING = m.field_size("FNLog::SHMLogger", "ring_buffers_") // m.struct("FNLog::RingBuffer")["size"]
        self.LOG = m.field_size("FNLog::LogData", "content_")
    ends = "load"
    def setup(self, st):
        super().setup(st)
        p = ("P", ("arg", 0), (self.fieldstep("FNLog::Logger", "shm_"),)); st.mem[self.memkey(p)] = ("P", ("null",), ())
    def x(self, st, i): return st.auto[5][i]
    def setx(self, st, i, v): e = st.auto[5]; self.seta(st, 5, e[:i] + (v,) + e[i + 1:])

    # ---- what is known
    def entry(self, st, p):
        """the segment or object a pointer leads into: (address symbol, 'existing' | 'created' | 'private')"""
        if p[0] != "P" or p[1][0] != "s": return None
        for n, i, mine in self.a(st, 1):
            if n == p[1][1]: return n, "created" if mine else "existing"
        for n in self.a(st, 2):
            if n == p[1][1]: return n, "private"
        u = self.x(st, PUB)
        if u and u[0] == p[1][1] and not self.null(st): return u[0], u[2]
        return None

    def fld(self, st, n, cls, ring=None):
        for k, v in st.mem.items():
            if k[0] == ("s", n) and kcls(k) == cls and v[0] == "L":
                if ring is None or self.same(st, self.ring(parse(k[1])), ring): return v[1]
        return None

    def ring(self, pp): return index_of(pp, "SHMLogger.ring_buffers_")
    def slot(self, pp): return index_of(pp, "RingBuffer.buffer_")
    def inside(self, st, l, n): return l is not None and self.prove_ge(st, l) and self.prove_ge(st, ladd(lc(n - 1), l, -1))

    def known(self, st, n):
        """is the segment known to be one of this program's?"""
        u = self.x(st, PUB)
        idn = next((i for s, i, _ in self.a(st, 1) if s == n), u[1] if u else None)
        size = self.fld(st, n, "SHMLogger.shm_size_"); i = self.fld(st, n, "SHMLogger.shm_id_")
        return size is not None and self.same(st, size, lc(self.SIZE)) and i is not None and self.same(st, i, ls(idn))

    def valid(self, st, n, r):
        w, h, rd, p = (self.fld(st, n, c, r) for c in RING_IDX)
        return self.inside(st, w, self.LEN) and h is not None and self.same(st, w, h) and self.inside(st, rd, self.LEN) and p is not None and self.same(st, p, rd)

    # ---- the sweep over the queues: ("at" | "at-", position, valid)
    def at(self, st, r):
        s = self.x(st, POS)
        if s == "done":
            return
        if s and s != "lost" and self.same(st, s[1][1], r): return
        self.settle(st); s = self.x(st, POS)
        if s == "done": return
        good = isinstance(s, tuple) and s[2]
        if good and s[0] == "at" and self.same(st, ladd(s[1][1], lc(1)), r): new = ("at", ("lin", r), False)
        elif good and s[0] == "at-" and self.same(st, ladd(s[1][1], lc(-1)), r): new = ("at-", ("lin", r), False)
        elif self.same(st, r, ZERO): new = ("at", ("lin", r), False)
        elif self.same(st, r, lc(self.NRING - 1)): new = ("at-", ("lin", r), False)
        else: new = "lost"
        self.setx(st, POS, new); self.setx(st, SLOT, None)

    def settle(self, st):
        s = self.x(st, POS)
        if not isinstance(s, tuple): return
        n = self.current(st)
        if n is not None and not s[2] and self.valid(st, n, s[1][1]): s = (s[0], s[1], True); self.setx(st, POS, s)
        r = s[1][1]
        if s[2] and (s[0] == "again" or s[0] == "at" and self.same(st, ladd(r, lc(1)), lc(self.NRING)) or s[0] == "at" and self.prove_ge(st, ladd(r, lc(1 - self.NRING))) or s[0] == "at-" and self.same(st, r, ZERO)): self.setx(st, POS, "done")

    def current(self, st):
        e = [n for n, _, _ in self.a(st, 1)] + list(self.a(st, 2)) + ([self.x(st, PUB)[0]] if self.x(st, PUB) else [])
        return e[0] if len(e) == 1 else None

    def on_branch(self, st, ins, cond, taken): self.settle(st)

    # ---- accesses
    def touch(self, st, ins, p, write):
        e = self.entry(st, p)
        if e is None: return None
        pp = ppath(p); c = self.cls(p)
        if e[1] == "existing" and c not in ("SHMLogger.shm_size_", "SHMLogger.shm_id_"):
            self.hit("accesses of an existing segment")
            self.chk("C17", self.known(st, e[0]), "unknown/" + c, ins, "%s of a segment that existed before is used although the segment is not known to have this program's size and its own id" % c)
        if has(pp, "SHMLogger.ring_buffers_"):
            r = self.ring(pp)
            self.chk("C17", self.inside(st, r, self.NRING), "bounds/ring_buffers_", ins, "a queue outside the storage is used")
            if c in RING_IDX: self.at(st, r)
            if has(pp, "RingBuffer.buffer_"):
                self.chk("C17", self.inside(st, self.slot(pp), self.LEN), "bounds/buffer_", ins, "a slot outside its queue is used: the index comes from the shared memory and was not checked")
        return e, pp, c

    def access(self, st, ins, p, size, write):
        t = self.touch(st, ins, p, write)
        if not t or not write or ins.op not in ("store", "atomicrmw"): pass
        if t and t[0][1] == "existing" and has(t[1], "LogData.content_"):
            ix = index_of(t[1], "LogData.content_")
            self.chk("C17", self.prove_ge(st, ix) and self.prove_ge(st, ladd(lc(self.LOG), ladd(ix, size), -1)), "bounds/content_", ins, "recovery writes past a record's content")

    def on_load(self, st, ins, p, v): self.settle(st)

    def wrote(self, st, ins, p, v, size=None):
        t = self.touch(st, ins, p, True)
        if not t: return
        (n, kind), pp, c = t
        l = None if v is None else self.lin(st, v) if v[0] != "P" else None
        if c in RING_IDX and isinstance(self.x(st, POS), tuple) and self.same(st, self.x(st, POS)[1][1], self.ring(pp)):
            s = self.x(st, POS); self.setx(st, POS, (s[0], s[1], False))
        elif c in RING_IDX: self.setx(st, POS, ("again", ("lin", self.ring(pp)), False) if self.x(st, POS) == "done" else "lost")
        if kind != "existing": return
        self.hit("recovery writes")
        r = self.ring(pp)
        if c == R: self.chk("C17", False, "effect/read", ins, "recovery moves the read index: records that were not dispatched are lost or dispatched again")
        elif c == P: self.chk("C17", l is not None and self.fld(st, n, R, r) is not None and self.same(st, l, self.fld(st, n, R, r)), "effect/dispatch", ins, "recovery sets the dispatch index to something else than the read index")
        elif c == H:
            w = self.fld(st, n, W, r)
            self.chk("C17", w is not None and l is not None and self.same(st, l, w) and self.passed(st, n, r), "effect/reserve", ins, "recovery changes the reserve index although unfinished records were not all completed")
        elif c == W:
            s = self.x(st, SLOT); w = self.fld(st, n, W, r)
            ok = l is not None and w is not None and (self.same(st, l, w) or s and s[0] == "marked" and self.isnext(st, s[1][1], l) or s and s[0] == "next" and self.same(st, s[1][1], l))
            self.chk("C17", ok, "effect/write", ins, "recovery passes a slot that it has not marked complete")
            if not self.same(st, l, w):
                cl = next((v[1] for k, v in st.mem.items() if k[0] == ("s", n) and kcls(k) == "LogData.content_len_" and v[0] == "L" and s and self.same(st, self.slot(parse(k[1])), s[-1][1])), None)
                t, z = self.x(st, TEXT)[1], self.x(st, NUL)[1]
                self.chk("C17", cl is not None and self.prove_ge(st, t) and self.prove_ge(st, ladd(cl, t, -1)), "text", ins, "recovery passes an unfinished record without having appended its recovery text within the record's length")
                self.chk("C17", cl is not None and self.same(st, z, cl), "terminated", ins, "recovery passes an unfinished record whose content is not terminated at its length")
            self.setx(st, SLOT, None); self.setx(st, TEXT, ("lin", lc(-1))); self.setx(st, NUL, ("lin", lc(-1)))
        elif has(pp, "RingBuffer.buffer_"):
            s = self.x(st, SLOT); k = self.slot(pp); w = self.fld(st, n, W, r); h = self.fld(st, n, H, r)
            here = s[1][1] if s else None
            at = s and s[0] == "marked" and self.same(st, k, here) or (self.same(st, k, here) if s and s[0] == "next" else s is None and w is not None and self.same(st, k, w)) and h is not None and self.differ(st, k, h)
            if not self.chk("C17", at, "slot", ins, "recovery writes to a slot that is not the first one reserved and not completed: a complete record or one in use changes"): return
            self.chk("C17", self.inside(st, h, self.LEN), "bounds/hold_idx_", ins, "recovery runs up to a reserve index that is not known to lie inside the queue: it may never end")
            if c == "LogData.content_":
                ix = index_of(pp, c)
                if ins.op in ("call", "invoke"): self.setx(st, TEXT, ("lin", ladd(ix, size)) if size is not None and self.prove_ge(st, ladd(size, lc(-1))) else ("lin", lc(-1)))
                elif l is not None and self.same(st, l, ZERO): self.setx(st, NUL, ("lin", ix))
            if c == MARK:
                self.hit("marks")
                if self.chk("C17", l is not None and self.same(st, l, lc(2)), "mark", ins, "recovery sets a mark that does not mean complete"): self.setx(st, SLOT, ("marked", ("lin", k)))
        elif c.startswith(("Channel.", "Device.")) or c.startswith("SHMLogger.") and not has(pp, "SHMLogger.ring_buffers_"): self.chk("C17", False, "effect/" + c, ins, "loading changes %s of a segment that existed before" % c)
        else: self.chk("C17", False, "effect/" + c, ins, "loading changes %s of a segment that existed before" % c)

    def passed(self, st, n, r):
        w, h = self.fld(st, n, W, r), self.fld(st, n, H, r)
        return w is not None and h is not None and self.same(st, w, h)

    def stored(self, st, ins, p, v): self.wrote(st, ins, p, v)
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "load": self.settle(st)
        elif kind == "store": self.wrote(st, ins, p, vals[0])
        else: self.wrote(st, ins, p, None)
    def on_memop(self, st, ins, name, args, n): self.wrote(st, ins, args[0], None, n if "memset" not in name else None)

    def step(self, st, ins):
        out = super().step(st, ins)
        for s in out or ():
            k = self.x(s, SLOT)
            v = s.env.get(ins.id) if k and k[0] == "marked" and ins.op in ("srem", "urem", "select", "add", "and") else None
            if v and v[0] == "L" and self.isnext(s, k[1][1], v[1]): self.setx(s, SLOT, ("next", ("lin", v[1]), k[1]))
        return out

    def edge(self, fn, b, nb, s):
        out = super().edge(fn, b, nb, s)
        k = self.x(s, SLOT)
        if k and k[0] == "marked":
            for i in fn.blocks[nb]:
                if i.op != "phi": break
                v = s.env.get(i.id)
                if v and v[0] == "L" and self.isnext(s, k[1][1], v[1]): self.setx(s, SLOT, ("next", ("lin", v[1]), k[1])); break
        return out

    def published(self, st, ins, w):
        if w[0] == "seg": n, i, mine = self.a(st, 1)[w[1]]; kind = "created" if mine else "existing"
        else: n, i, kind = self.a(st, 2)[w[1]], None, "private"
        self.setx(st, PUB, (n, i, kind))

    def used(self, st, ins):
        """loading succeeds: what is known about the storage the logger has now"""
        self.settle(st); u = self.x(st, PUB)
        if not self.chk("C17", u is not None, "publish/none", ins, "loading succeeds without storage"): return
        n, i, kind = u
        self.hit("private storage published" if kind == "private" else "segments published")
        if kind != "private":
            self.chk("C17", self.known(st, n), "publish/" + kind, ins, "a segment becomes the logger's storage without being known to have this program's size and its own id" if kind == "existing" else "a new segment becomes the logger's storage without its size and id recorded: the next run refuses it")
        c = self.fld(st, n, "SHMLogger.channel_size_")
        self.chk("C17", c is not None and self.inside(st, c, self.NCHAN + 1), "publish/channels", ins, "storage is used although the number of channels in it is not known to be valid")
        self.chk("C17", self.x(st, POS) == "done", "publish/queues", ins, "storage is used although the indices of its queues are not all known to be valid (inside the queue, nothing left unfinished, dispatch where reading stopped)")

    def on_ret(self, st, ins, v):
        self.hit("exits")
        self.chk("C17", not self.a(st, 1), "refused", ins, "a segment that is refused stays attached")
        r = self.lin(st, v); have = self.shm(st)
        self.chk("C17", not self.a(st, 3), "new", ins, "a segment that was just created is refused: the logger can never start with it")
        self.chk("C17", self.same(st, r, ZERO) and have is not None and self.decide(st, ("ne", have)) is True or self.differ(st, r, ZERO) and self.null(st), "result", ins, "a refused segment is not reported, or is used all the same")
        if not self.differ(st, r, ZERO): self.used(st, ins)


def run(res, config):
    m = ctx.module(config, expand=("^FNLog::ResetSHMLogger$",))
    e = Validate(m, res); f = m.fn("FNLog::LoadSharedMemory"); e.run(f); res.fns.add(f.name)
    for k, n in e.n.items(): res.count(k, n)
    for k, n in (("segments published", 2), ("private storage published", 1), ("accesses of an existing segment", 8), ("recovery writes", 5), ("marks", 1), ("exits", 5)): res.need(e.n.get(k, 0), k, n)
