"""C11: device handles of a synchronous channel are used under the channel's lock; screen output under one lock."""
import ctx
from locks import *

EXPLANATION = ("Path-sensitive lockset analysis of dispatching and of stopping with all device writers expanded: at each operation on a file or socket handle of a channel, and each access to its network input buffer, "
               "the path either has decided that the channel is asynchronous (one thread) or holds a lock that belongs to that channel, the same one at all sites; each screen output holds one lock that is common to all channels.")
RULE = "handle operation on channel c => channel c decided asynchronous, or the lock with index c held (same lock array at every site); screen output => the common screen lock held"
ASSUMPTIONS = ["an asynchronous channel's handles are used by its own thread, and by stopping only after that thread was joined (C09)"]
HANDLE = re.compile(r"^(FNLog::FileHandler|UDPHandler)::(?!~)")
PRINT = re.compile(r"^(printf|puts|putchar|vprintf|fputs|fputc|fwrite|fprintf|vfprintf|write|std::operator<<.*|std::ostream::.*|std::basic_ostream<.*)$")


class Guarded(Locks):
    max_disjuncts = 1
    split_join = True
    sizes_known = True
    loop_unroll = 1
    dispatch = True
    coarse = False

    def key(self, st): return (super().key(st), self.asyn(st, lambda i: True))

    def __init__(self, m, res, w, sites):
        super().__init__(m, res, w); self.sites = sites
        self.ASYNC = m.enum("CHANNEL_ASYNC")
        self.ND = self.NDEV

    def setup(self, st):
        super().setup(st)
        if self.f.name == "FNLog::EnterProcChannel": self.bound_arg(st, 1, 0, self.NCHAN - 1)

    def asyn(self, st, match):
        for k, v in st.mem.items():
            if kcls(k) == "Channel.channel_type_" and v[0] == "L":
                ix = index_of(parse(k[1]), "SHMLogger.channels_") or ZERO
                if match(ix) and self.same(st, v[1], lc(self.ASYNC)): return True
        return False

    def need(self, st, ins, kind, match, what):
        self.hit(kind)
        if self.dispatch and self.asyn(st, match): self.res.ok("%s: %s, asynchronous" % (self.w, what)); return
        got = frozenset(h[0] for h in st.auto[0] if match(h[1][1]) and h[0] != "Logger.state_lock_")
        self.sites.setdefault(kind, []).append((got, ins.where(), what))
        self.res.check(bool(got), "%s/%s" % (self.w, what), ins.where(), "%s without the channel's lock, on a channel not known to be asynchronous" % what, what="%s: %s under lock" % (self.w, what))

    def handle(self, st, ins, p, what):
        pp = ppath(p)
        for f in ("Logger.file_handles_", "Logger.udp_handles_"):
            if has(pp, f):
                ix = index_of(pp, f)
                def match(c):
                    l = ladd(ix, lmul(c, self.ND), -1)
                    if isconst(c) and isconst(l): return 0 <= l[0] < self.ND
                    if self.coarse: return True
                    if lsyms(c): return not (set(lsyms(l)) & set(lsyms(c)))
                    return self.prove_ge(st, l) and self.prove_ge(st, ladd(lc(self.ND - 1), l, -1))
                self.need(st, ins, "handle operations", match, what)
                return True
        return False

    def on_call(self, st, ins, name, args):
        if HANDLE.match(name) and args:
            self.handle(st, ins, args[0], name.split("FNLog::")[-1].split("[")[0])
        elif self.dispatch and PRINT.match(name):
            self.screen(st, ins, name, args)
        for a in args:
            if a[0] == "P" and has(ppath(a), "RingBuffer.udp_buffer_"): self.buf(st, ins, a)
        return super().on_call(st, ins, name, args)

    def screen(self, st, ins, name, args):
        self.hit("screen outputs")
        got = frozenset(h[0] for h in st.auto[0] if isconst(h[1][1]) and h[1][1][0] == 0 and h[0] != "Logger.read_locks_")
        self.sites.setdefault("screen", []).append((got, ins.where(), "screen output"))
        self.res.check(bool(got), self.w + "/screen", ins.where(), "output to the screen without the common screen lock", what="screen output under lock")

    def buf(self, st, ins, p):
        c = index_of(ppath(p), "SHMLogger.ring_buffers_") or ZERO
        self.need(st, ins, "input buffer accesses", lambda i: self.same(st, i, c), "network input buffer")

    def on_store(self, st, ins, p, v):
        if has(ppath(p), "RingBuffer.udp_buffer_"): self.buf(st, ins, p)

    def on_load(self, st, ins, p, v):
        if has(ppath(p), "RingBuffer.udp_buffer_"): self.buf(st, ins, p)


class Stop(Guarded):
    coarse = True           # the index of the lock is compared with that of the handle only where both are constant
    loop_unroll = 0
    dispatch = False        # stopping has no say in which channel is asynchronous


def run(res, config):
    m = ctx.module(config)
    sites = {}
    tot = {}
    for f, c in [(m.fn("FNLog::EnterProcChannel"), Guarded), (m.fn("vroot_stop"), Stop)] + \
                [(f, Stop) for f in m.fns_rx(r"^(vroot_start|FNLog::HotUpdateLogger|FNLog::LogStream::~LogStream|vroot_push|vroot_transmit)$")
                 if any(HANDLE.match(i.callee) for b in f.blocks for i in b if i.op in ("call", "invoke"))]:
        e = c(m, res, f.name.split("::")[-1].replace("vroot_", ""), sites); e.run(f); res.fns.add(f.name)
        for k, n in e.n.items(): tot[k] = tot.get(k, 0) + n
        if f.name == "FNLog::EnterProcChannel":
            res.need(e.n.get("screen outputs", 0), "screen outputs")
            res.need(e.n.get("input buffer accesses", 0), "input buffer accesses")
            res.need(e.n.get("handle operations", 0), "handle operations while dispatching", 5)
        if f.name == "vroot_stop": res.need(e.n.get("handle operations", 0), "handle operations while stopping")
    res.count("acquisitions", tot.get("acquisitions", 0))
    for kind, L in sites.items():
        if not all(g for g, _, _ in L): continue
        common = frozenset.intersection(*[g for g, _, _ in L])
        if not common:
            r = [x for x in L if not (x[0] & L[0][0])]
            w = (r or L)[0]
            res.bad(kind + "/different-locks", w[1], "%s are guarded by different locks at different places (%s here)" % (kind, ", ".join(sorted(w[0]))))
        else: res.ok("%s: one lock at all %d places (%s)" % (kind, len(L), ", ".join(sorted(common))))
