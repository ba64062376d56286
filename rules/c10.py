"""C10: one lock order, no waiting for a thread that needs a held lock, every lock released on every path."""
import ctx
from locks import *

EXPLANATION = ("Path-sensitive lockset analysis of every function of the library, exceptional edges included, with summaries of the locks each callee can block on. Edges 'held -> acquired' form the lock-order graph; "
               "every wait for another thread (join, sleeping in a loop) is checked against the locks the threads' functions can block on; every exit of a function must leave the locks as they were on entry.")
RULE = "the graph of (held lock, lock acquired while it is held) has no cycle; no wait for a thread while holding a lock its function can block on; no lock held on exit, normal or exceptional; no non-recursive lock taken twice"
ASSUMPTIONS = ["locks of one array are identified by their index", "taking a lock itself does not throw", "user hooks and signal handlers are not analysed"]
JOIN = re.compile(r"^std::thread::join$|^pthread_join$")
SLEEP = re.compile(r"sleep|^std::condition_variable(_any)?::wait|^pthread_cond_")


class LS(Locks):
    def __init__(self, m, res, w, A):
        super().__init__(m, res, w); self.A = A; self.waits = []; self.calls = []
        self.mayth = A["throws"]

    def again(self, st, ins, cls):
        self.res.bad("again/" + cls, ins.where(), "%s is taken again by the thread that holds it, and it is not recursive" % cls)

    def not_held(self, st, ins, cls):
        self.res.bad("unheld/" + cls, ins.where(), "%s is released although this path does not hold it" % cls)

    def edge_(self, h, cls, ix, ins, st):
        self.hit("nested acquisitions")
        self.edges.setdefault((h[0], cls), ins.where())

    def on_project_call(self, st, ins, f, args):
        if self.first_visit(ins, st): self.calls.append((f.key, st.auto[0], ins))
        self.leak(st, ins)
        return None

    def on_other_call(self, st, ins, name, args):
        if JOIN.match(name) or (SLEEP.search(name) and ins.b in self.looping):
            if self.first_visit(ins, st): self.waits.append((tuple(h[0] for h in st.auto[0]), ins))
        self.leak(st, ins)

    def leak(self, st, ins):
        if st.auto[0] and ins.op == "call" and self.mayth(ins):
            guarded = {g[1] for g in st.auto[1] if g[3]}
            self.res.bad("leak-exception/" + st.auto[0][0][0], ins.where(), "%s stays locked when %s throws" % (st.auto[0][0][0], ins.callee[:60]))

    def first_visit(self, ins, st):
        k = (ins.id, tuple((h[0], h[2]) for h in st.auto[0]))
        if k in self.seen: return False
        self.seen.add(k); return True

    def setup(self, st):
        super().setup(st); self.seen = set(); self.looping = cyc(self.f)

    def on_ret(self, st, ins, v):
        self.hit("exits")
        for h in st.auto[0]: self.res.bad("leak/" + h[0], ins.where(), "%s is still held when %s returns" % (h[0], self.f.name))

    def on_unwind_exit(self, st, ins):
        self.hit("exits")
        for h in st.auto[0]: self.res.bad("leak-exception/" + h[0], ins.where(), "%s is still held when an exception leaves %s" % (h[0], self.f.name))


def cyc(f):
    """blocks that lie on a cycle of the control flow"""
    import sys
    idx = {}; low = {}; st = []; on = set(); out = set(); c = [0]
    for r in f.rpo:
        if r in idx: continue
        work = [(r, iter(f.succ[r]))]; idx[r] = low[r] = c[0]; c[0] += 1; st.append(r); on.add(r)
        while work:
            b, it = work[-1]
            for s in it:
                if s not in idx:
                    idx[s] = low[s] = c[0]; c[0] += 1; st.append(s); on.add(s); work.append((s, iter(f.succ[s]))); break
                elif s in on: low[b] = min(low[b], idx[s])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == idx[b]:
                    comp = []
                    while True:
                        x = st.pop(); on.discard(x); comp.append(x)
                        if x == b: break
                    if len(comp) > 1 or b in f.succ[b]: out.update(comp)
    return out


def run(res, config):
    m = ctx.module(config, keep=ctx.DEVICES, eh=True)
    A = {"throws": throws(m)}
    uses = set()
    for k, f in m.fns.items():
        if f.blocks and any(i.op in ("call", "invoke") and (is_lock_call(i.callee) or JOIN.match(i.callee)) for b in f.blocks for i in b): uses.add(k)
    callees = {}
    for k, f in m.fns.items():
        callees[k] = {i.x.get("fn") for b in f.blocks for i in b if i.op in ("call", "invoke") and i.x.get("fn") in m.fns}
    res.need(len(uses), "functions that take locks", 3)
    info = {}
    for k in sorted(uses):
        f = m.fns[k]
        e = LS(m, res, f.name, A); e.run(f); info[k] = e; res.fns.add(f.name)
        for x, n in e.n.items(): res.count(x, n)
        res.ok("%s leaves every lock as it found it" % f.name)
    # what each function can block on, through its calls
    blk = {k: set(info[k].first) if k in info else set() for k in m.fns}
    acq = True
    while acq:
        acq = False
        for k in m.fns:
            for c in callees[k]:
                if not blk[c] <= blk[k]: blk[k] |= blk[c]; acq = True
    edges = {}
    for e in info.values():
        for x, w in e.edges.items(): edges.setdefault(x, w)
        for c, held, ins in e.calls:
            for h in held:
                for a in blk[c]:
                    if a != h[0]: edges.setdefault((h[0], a), ins.where())
    res.need(res.counts.get("acquisitions", 0), "acquisitions", 3)
    # order
    g = {}
    for (a, b) in edges: g.setdefault(a, set()).add(b)
    for (a, b), w in sorted(edges.items()):
        if a == b:
            res.bad("order/%s" % a, w, "a second lock of %s is taken while another one is held: no order between them" % a); continue
        seen = {b}; todo = [b]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in seen: seen.add(y); todo.append(y)
        res.check(a not in seen, "order/%s" % "-".join(sorted((a, b))), w, "%s is taken while %s is held, and elsewhere the other way round (%s)" %
                  (b, a, "; ".join("%s -> %s at %s" % (x, y, edges[(x, y)]) for (x, y) in edges if x in seen and (y == a or y in seen))[:300]), what="order %s before %s" % (a, b))
    res.count("ordered pairs", len(edges))
    # waits
    tf = set()
    for f in m.fns.values():
        for b in f.blocks:
            for i in b:
                if i.op in ("call", "invoke") and i.callee.startswith("std::thread::thread") and len(i.a) > 1:
                    got = [a[1] for a in i.a if a and a[0] == "fn"]
                    tf.update(x for x in got if x in m.fns)
                    if not got: tf.update(k for k, g in m.fns.items() if "_State_impl" in k or "std::invoke" in g.name or "operator()" in g.name)
    res.need(len(tf), "thread functions")
    tb = set().union(*[blk[k] for k in tf])
    res.need(len(tb), "locks the threads can block on")
    n = 0
    for e in info.values():
        for held, ins in e.waits:
            n += 1
            bad = sorted(set(held) & tb)
            res.check(not bad, "wait/" + "-".join(bad), ins.where(), "a thread is waited for while holding %s, which that thread can block on" % ", ".join(bad), what="wait at %s holds %s" % (ins.where(), held or "nothing"))
    res.need(n, "waits")
    # waits reached through calls
    for k, e in info.items():
        for c, held, ins in e.calls:
            if not held: continue
            todo = [c]; seen = {c}
            while todo:
                x = todo.pop()
                for y in callees[x]:
                    if y not in seen: seen.add(y); todo.append(y)
            for x in seen:
                if x in tf: continue
                for h2, i2 in (info[x].waits if x in info else ()):
                    bad = sorted({h[0] for h in held} & tb)
                    res.check(not bad, "wait/" + "-".join(bad), ins.where(), "a call that waits for a thread (%s) is made while holding %s, which that thread can block on" % (i2.where(), ", ".join(bad)))
