"""The logger's storage: how it is obtained, validated and released (C17, C18).
st.auto = (rel, seg, heap, pend, gone, extra): rel = released storage Logger.shm_ still points at; seg = segments attached here ((address symbol, id symbol, created here | 'own' | 'removed': taken from the logger to be released));
heap = objects allocated here; pend = ids of segments created here that nobody owns yet; gone = the released segment was removed as well"""
from common import *

SHM, KEY = "Logger.shm_", "Logger.shm_key_"
RELEASE = ("shmdt", "operator delete", "operator delete(void*)", "free", "cfree")


class Storage(Base):
    max_disjuncts = 12
    loop_unroll = 0
    keep_record = False
    lead = ()       # extra for the start

    def __init__(self, m, res, w, prop):
        super().__init__(m); self.res = res; self.w = w; self.prop = prop; self.n = {}
        self.SIZE = m.struct("FNLog::SHMLogger")["size"]
        self.LEN = m.field_size("FNLog::RingBuffer", "buffer_") // m.struct("FNLog::LogData")["size"]

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st): st.auto = (None, (), (), (), None, self.lead)
    def a(self, st, i): return st.auto[i]
    def seta(self, st, i, v): st.auto = st.auto[:i] + (v,) + st.auto[i + 1:]
    def chk(self, prop, cond, key, ins, msg):
        if prop == self.prop: self.res.check(cond, self.w + "/" + key, ins.where(), msg, what=self.w + ": " + key)
        return cond
    def uses(self, fn):
        return self.touches(fn)

    # ---- knowledge
    def shm(self, st): return self.memlin(st, SHM)
    def null(self, st):
        l = self.shm(st)
        return l is not None and self.same(st, l, ZERO)
    def obtained(self, st):
        """'private' | 'shared' | None"""
        k = self.memlin(st, KEY)
        if k is None: return None
        if self.prove_ge(st, ladd(k, lc(-1))): return "shared"
        if self.prove_ge(st, lneg(k)): return "private"
        return None
    def root_struct(self, root):
        if root[0] == "s" and self.syms[root[1]].kind in ("seg", "own", "loaded"): return "FNLog::SHMLogger"
        return super().root_struct(root)
    def load_mem(self, st, ins, ptr):
        if ptr[0] == "P" and self.cls(ptr) == SHM and self.memkey(ptr) not in st.mem:
            v = super().load_mem(st, ins, ptr)
            if v[0] == "P" and v[1][0] == "s":      # one symbol per place where it is read
                v = ("P", ("s", self.place(ins, "own", 0, 1 << 47)), ()); self.forget(st, v[1][1])
                st.mem[self.memkey(ptr)] = v
            return v
        if ptr[0] == "P" and self.cls(ptr) == "SHMLogger.shm_id_" and self.memkey(ptr) not in st.mem and ins.ty == "i32":
            v = ("L", ls(self.place(ins, "ownid", -(1 << 31), (1 << 31) - 1))); st.mem[self.memkey(ptr)] = v
            return v
        return super().load_mem(st, ins, ptr)
    def stable_atomic(self, cls): return cls in RING_IDX or super().stable_atomic(cls)
    def call_preserves(self, st, ins, name, key):
        return kcls(key).startswith(("Logger.", "SHMLogger.", "RingBuffer.", "LogData.", "LexState.")) and not kcls(key) == "Logger.logger_state_" or super().call_preserves(st, ins, name, key)

    def which(self, st, p):
        """what a pointer leads to: ('seg', i) | ('heap', i) | 'own' | None"""
        l = self.plin(st, p) if p[0] == "P" else self.lin(st, p)
        for i, (n, _, _) in enumerate(self.a(st, 1)):
            if self.same(st, l, ls(n)): return ("seg", i)
        for i, n in enumerate(self.a(st, 2)):
            if self.same(st, l, ls(n)): return ("heap", i)
        o = self.shm(st)
        if o is not None and self.same(st, l, o): return "own"
        return None

    def place(self, ins, what, lo, hi):
        return self.intern((what, ins.f.key, ins.id), what, (ins.id,), lo, hi)

    # ---- events
    def on_call(self, st, ins, name, args):
        b = name.split("(")[0]
        if b == "shmget":
            self.hit("segments looked up")
            n = self.place(ins, "shmid", 0, (1 << 31) - 1); s2 = st.copy()
            fl = self.lin(st, args[2])
            may = not isconst(fl) or bool(fl[0] & 0o1000)
            if may: self.seta(st, 3, self.a(st, 3) + (n,))
            self.forget(st, n)
            return [(st, ("L", ls(n))), (s2, ("L", lc(-1)))]
        if b == "shmat":
            self.hit("attached")
            n = self.place(ins, "seg", 4096, 1 << 47); s2 = st.copy()
            i = self.lin(st, args[0]); idn = i[1][0][0] if len(i[1]) == 1 else -1
            mine = idn in self.a(st, 3)
            self.forget(st, n)
            self.seta(st, 1, self.a(st, 1) + ((n, idn, mine),))
            return [(st, ("P", ("s", n), ())), (s2, ("P", ("n", lc(-1)), ()))]
        if b == "operator new" and args and self.same(st, self.lin(st, args[0]), lc(self.SIZE)):
            self.hit("allocated")
            n = self.place(ins, "seg", 4096, 1 << 47); self.forget(st, n)
            self.seta(st, 2, self.a(st, 2) + (n,))
            return [(st, ("P", ("s", n), ()))]
        if b == "shmctl":
            cmd = self.lin(st, args[1])
            if self.same(st, cmd, ZERO): self.remove(st, ins, self.lin(st, args[0]))
            return [(st, None)]
        if b in RELEASE or b == "operator delete":
            w = self.which(st, args[0])
            if b == "shmdt" or w: self.free(st, ins, args[0], w, "detach" if b == "shmdt" else "delete")
            return [(st, None)]
        if name == "FNLog::LoadSharedMemory":
            self.hit("loads")
            self.chk("C18", self.null(st), "load/owned", ins, "storage is loaded although the logger may have storage already: that would never be released")
            s2 = st.copy(); a = args[0]
            n = self.place(ins, "loaded", 4096, 1 << 47)
            for s, v in ((st, ("P", ("s", n), ())), (s2, ("P", ("null",), ()))):
                p = ("P", a[1], a[2] + (self.fieldstep("FNLog::Logger", "shm_"),)); s.mem[self.memkey(p)] = v
            r = self.opaque(s2, ins, "ret")
            return [(st, ("L", ZERO))] + [(x, r) for x in self.assume(s2, ("ne", r[1]))]
        if name == "FNLog::UnloadSharedMemory":
            self.hit("unloads"); self.unloading(st, ins)
            a = args[0]; p = ("P", a[1], a[2] + (self.fieldstep("FNLog::Logger", "shm_"),)); st.mem[self.memkey(p)] = ("P", ("null",), ())
            return [(st, None)]
        return self.string_call(st, ins, name, args)

    def unloading(self, st, ins): pass
    def fieldstep(self, s, f):
        for x in self.m.struct(s)["fields"]:
            if x[0] == f: return ("f", s, f, x[1], x[2])
        raise AnalysisError("anchor vanished: field %s::%s" % (s, f))
    def forget(self, st, n):
        for k in [k for k in st.mem if k[0] == ("s", n)]: del st.mem[k]

    def remove(self, st, ins, i):
        self.hit("removed")
        if len(i[1]) == 1 and i[1][0][0] in self.a(st, 3):
            self.seta(st, 3, tuple(x for x in self.a(st, 3) if x != i[1][0][0])); return
        for k, (n, x, kind) in enumerate(self.a(st, 1)):
            o = self.ownid(st, ls(n))
            if kind == "own" and o is not None and self.same(st, o, i):
                L = self.a(st, 1); self.seta(st, 1, L[:k] + ((n, x, "removed"),) + L[k + 1:]); return
        own = self.memlin(st, "SHMLogger.shm_id_", lambda p: has(p, SHM)) or self.ownid(st)
        ok = own is not None and self.same(st, own, i)
        if self.chk("C18", ok and (self.a(st, 0) is not None or self.obtained(st) == "shared"), "remove/foreign", ins, "a shared memory segment is removed that was neither created here nor is the logger's own") and ok:
            self.chk("C18", not self.a(st, 4), "remove/twice", ins, "the logger's segment is removed twice")
            self.seta(st, 4, True)

    def ownid(self, st, o=None):
        if o is None: o = self.shm(st) if self.a(st, 0) is None else self.a(st, 0)[1]
        for k, v in st.mem.items():
            if kcls(k) == "SHMLogger.shm_id_" and v[0] == "L" and o is not None and k[0][0] == "s" and self.same(st, ls(k[0][1]), o): return v[1]
        return None

    def free(self, st, ins, p, w, how):
        self.hit("released")
        if isinstance(w, tuple):
            self.chk("C18", (w[0] == "seg") == (how == "detach"), "release/kind", ins, "storage is released by the wrong call (%s of %s)" % (how, "an attached segment" if w[0] == "seg" else "private memory"))
            k = 1 if w[0] == "seg" else 2
            if w[0] == "seg" and self.a(st, 1)[w[1]][2] == "own":
                n = self.a(st, 1)[w[1]][0]; i = st.mem.get((("s", n), self.memkey(("P", ("s", n), (self.fieldstep("FNLog::SHMLogger", "shm_id_"),)))[1]))
                if self.chk("C18", i is not None and i[0] == "L" and len(i[1][1]) == 1, "removed", ins, "the logger's segment is detached but stays in the system") : self.seta(st, 3, self.a(st, 3) + (i[1][1][0][0],))
            self.seta(st, k, self.a(st, k)[:w[1]] + self.a(st, k)[w[1] + 1:]); return
        l = self.plin(st, p) if p[0] == "P" else self.lin(st, p)
        if how == "delete" and self.same(st, l, ZERO): return
        if not self.chk("C18", w == "own", "release/unknown", ins, "a segment is detached that was not attached here and is not the logger's"): return
        self.chk("C18", self.a(st, 0) is None, "release/twice", ins, "the logger's storage is released twice")
        self.chk("C18", self.decide(st, ("ne", l)) is True or how == "delete", "release/null", ins, "storage is released that may not exist")
        self.chk("C18", self.obtained(st) == ("shared" if how == "detach" else "private"), "release/kind", ins, "the logger's storage is released by %s although it is not known to have been obtained that way" % ("detaching" if how == "detach" else "deleting"))
        self.seta(st, 0, ("lin", l))

    # ---- accesses
    def on_access(self, st, ins, p, size, write):
        r = self.a(st, 0)
        if r is not None and p[0] == "P" and p[1][0] == "s" and has(ppath(p), "SHMLogger.shm_id_") or p[0] == "P" and p[1][0] == "s" and r is not None:
            self.chk("C18", self.differ(st, ls(p[1][1]), r[1]) or self.syms[p[1][1]].kind not in ("own", "seg"), "released/use", ins, "the logger's storage is used after its release")
        self.access(st, ins, p, size, write)
    def access(self, st, ins, p, size, write): pass

    def on_store(self, st, ins, p, v):
        c = self.cls(p)
        if c == SHM and p[0] == "P" and ppath(p)[-1][0] == SHM and p[1][0] != "al":
            self.hit("storage set"); l = self.plin(st, v) if v[0] == "P" else self.lin(st, v)
            free = self.a(st, 0) is not None or self.null(st) or self.fresh_logger
            if self.same(st, l, ZERO):
                k = self.obtained(st); o = self.shm(st)
                if not free and k and o is not None and len(o[1]) == 1:     # forgotten, to be released from here
                    n = o[1][0][0]
                    if k == "shared": self.seta(st, 1, self.a(st, 1) + ((n, None, "removed" if self.a(st, 4) else "own"),))
                    else: self.seta(st, 2, self.a(st, 2) + (n,))
                    self.seta(st, 4, None); return
                self.chk("C18", free, "lost", ins, "the logger forgets its storage without releasing it")
                self.gone(st, ins)
                self.seta(st, 0, None); self.seta(st, 4, None)
                return
            self.chk("C18", free, "overwrite", ins, "the logger's storage is replaced without having been released")
            w = self.which(st, v)
            if not self.chk("C18", isinstance(w, tuple), "foreign", ins, "the logger's storage is set to something that was not obtained here"): return
            k = self.obtained(st); kind = w[0]
            self.chk("C18", k == ("shared" if kind == "seg" else "private"), "kind", ins, "%s becomes the logger's storage although the logger's key does not say so: it would be released in the wrong way" % ("an attached segment" if kind == "seg" else "private memory"))
            self.published(st, ins, w)
            if kind == "seg":
                n, i, mine = self.a(st, 1)[w[1]]
                self.seta(st, 1, tuple(x for x in self.a(st, 1) if x[0] != n)); self.seta(st, 3, tuple(x for x in self.a(st, 3) if x != i))
            else:
                n = self.a(st, 2)[w[1]]; self.seta(st, 2, tuple(x for x in self.a(st, 2) if x != n))
            self.seta(st, 0, None)
        elif c == KEY and p[1][0] != "al":
            self.hit("key set")
            self.chk("C18", self.null(st) or self.fresh_logger, "key", ins, "the key that says how the storage was obtained changes while the logger may have storage")
        else: self.stored(st, ins, p, v)
    fresh_logger = False
    def published(self, st, ins, w): pass
    def stored(self, st, ins, p, v): pass
    def gone(self, st, ins):
        if self.a(st, 0) is not None and self.obtained(st) == "shared":
            self.chk("C18", self.a(st, 4), "removed", ins, "the logger's segment is detached but stays in the system")

    # ---- ends
    ends = None     # 'load' | 'unload'
    def on_ret(self, st, ins, v):
        self.hit("exits")
        self.chk("C18", not self.a(st, 1), "exit/attached", ins, "a segment stays attached that nobody will detach")
        self.chk("C18", not self.a(st, 2), "exit/allocated", ins, "memory stays allocated that nobody will free")
        self.chk("C18", not self.a(st, 3), "exit/created", ins, "a segment that was created stays in the system although it is not used")
        self.chk("C18", self.a(st, 0) is None, "exit/released", ins, "the logger still points at storage that was released")
        if self.ends == "load":
            r = self.lin(st, v); n = self.null(st); have = self.shm(st)
            ok = self.same(st, r, ZERO) and have is not None and self.decide(st, ("ne", have)) is True or self.differ(st, r, ZERO) and n
            self.chk("C18", ok, "exit/result", ins, "what loading the storage returns does not tell whether the logger has storage")
        if self.ends == "unload":
            self.chk("C18", self.null(st), "exit/kept", ins, "the logger can keep storage when it is told to release it")


def touches(fn):
    """does a function obtain, release or set storage?"""
    size = fn.m.struct("FNLog::SHMLogger")["size"]
    for i in fn.insts():
        if i.op in ("call", "invoke"):
            b = i.callee.split("(")[0]
            if b in ("shmget", "shmat", "shmdt", "shmctl"): return True
            if b == "operator new" and i.a and i.a[0][0] == "c" and int(i.a[0][1]) == size: return True
            if i.callee in ("FNLog::LoadSharedMemory", "FNLog::UnloadSharedMemory"): return True
        if i.op == "store":
            v = i.a[1]; g = i.f.inst.get(v[1]) if v[0] == "i" else None
            if g is not None and g.op == "getelementptr":
                p = g.x["path"]
                if p and p[-1][0] == "f" and p[-1][1] == "FNLog::Logger" and p[-1][2] in ("shm_", "shm_key_"): return True
    return False
