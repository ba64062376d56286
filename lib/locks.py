"""Lock sets, path by path (C10, C11, C08, C16).
auto = (held, guards, extra); held = ((class, ("lin", index), depth), ...), guards = ((object root, class, ("lin", index), owned), ...)"""
from common import *

MUTEX = re.compile(r"^std::(?:shared_|recursive_|timed_|recursive_timed_|shared_timed_)?mutex::(lock|unlock|try_lock|lock_shared|unlock_shared|try_lock_shared|try_lock_for|try_lock_until)$"
                   r"|^pthread_(?:mutex|spin|rwlock)_(lock|unlock|trylock|rdlock|wrlock)$")
GUARD = re.compile(r"^std::(unique_lock|lock_guard|scoped_lock|shared_lock)<")
RECURSIVE = ("std::recursive_mutex",)


def is_lock_call(name):
    return bool(MUTEX.match(name) or GUARD.match(name))


class Locks(Base):
    keep_record = True
    max_disjuncts = 3

    def __init__(self, m, res, w):
        super().__init__(m); self.res = res; self.w = w; self.n = {}; self.edges = {}; self.first = set()

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st): st.auto = ((), (), None)
    def volatile(self, cls): return cls in ("Channel.channel_state_", "Logger.logger_state_")

    def lockid(self, st, p):
        if p[0] != "P": return ("?", ZERO)
        pp = ppath(p)
        for f, ix in reversed(pp):
            if not f.split(".")[0] in ("", "AutoGuard"): return (f, ix[0][0] if ix else ZERO)
        r = p[1]
        return (str(r[1]) if r[0] == "g" else "lock of %s" % (r,), ZERO)

    def held(self, st, cls, ix=None):
        return [h for h in st.auto[0] if h[0] == cls and (ix is None or self.same(st, h[1][1], ix))]

    def put(self, st, held=None, guards=None):
        st.auto = (st.auto[0] if held is None else tuple(sorted(held, key=lambda h: (h[0], str(h[1])))), st.auto[1] if guards is None else tuple(sorted(guards, key=str)), st.auto[2])

    def acquire(self, st, ins, cls, ix, blocking, recursive):
        self.hit("acquisitions")
        mine = self.held(st, cls, ix)
        if blocking:
            if mine and not recursive: self.again(st, ins, cls)
            self.first.add(cls)
            if not mine:
                for h in st.auto[0]: self.edge_(h, cls, ix, ins, st)
        if not mine and len(self.held(st, cls)) >= 3: mine = self.held(st, cls)[-1:]     # piled up: more are not told apart
        if mine:
            h = mine[0]
            self.put(st, [x for x in st.auto[0] if x is not h] + [(h[0], h[1], min(h[2] + 1, 4))])
        else: self.put(st, list(st.auto[0]) + [(cls, ("lin", ix), 1)])

    def release(self, st, ins, cls, ix):
        mine = self.held(st, cls, ix) or [h for h in st.auto[0] if h[0] == cls and not self.differ(st, h[1][1], ix)][-1:]
        if not mine: self.not_held(st, ins, cls); return
        h = mine[0]; rest = [x for x in st.auto[0] if x is not h]
        if h[2] > 1: rest.append((h[0], h[1], h[2] - 1))
        self.put(st, rest)

    def edge_(self, h, cls, ix, ins, st):
        self.edges.setdefault((h[0], cls), ins.where())

    def again(self, st, ins, cls): pass
    def not_held(self, st, ins, cls): pass
    def on_project_call(self, st, ins, f, args): return None

    def on_call(self, st, ins, name, args):
        mt = MUTEX.match(name)
        rec = "recursive" in name
        if mt:
            meth = mt.group(1) or mt.group(2)
            cls, ix = self.lockid(st, args[0])
            if "unlock" in meth: self.release(st, ins, cls, ix); return [(st, ("L", ZERO))]
            if meth.startswith("try") or meth == "trylock":
                ok = meth != "trylock"
                s2 = st.copy()
                self.acquire(st, ins, cls, ix, False, rec)
                yes, no = (("C", TRUE), ("C", FALSE)) if ok else (("L", ZERO), ("L", lc(16)))
                return [(st, yes), (s2, no)]
            self.acquire(st, ins, cls, ix, True, rec)
            return [(st, ("L", ZERO))]
        if GUARD.match(name) and args and args[0][0] == "P":
            meth = name.split(">::")[-1] if ">::" in name else name.rsplit("::", 1)[-1]
            root = args[0][1]; mg = ins.x.get("fn", "")
            g = next((x for x in st.auto[1] if x[0] == root), None)
            rest = [x for x in st.auto[1] if x[0] != root]
            if not meth.startswith("~") and meth in ("unique_lock", "lock_guard", "scoped_lock", "shared_lock"):
                if len(args) < 2: return [(st, None)]
                cls, ix = self.lockid(st, args[1])
                if "try_to_lock" in mg:
                    s2 = st.copy()
                    s2.auto = (s2.auto[0], tuple(sorted(rest + [(root, cls, ("lin", ix), False)], key=str)), s2.auto[2])
                    self.acquire(st, ins, cls, ix, False, rec); self.put(st, None, rest + [(root, cls, ("lin", ix), True)])
                    return [(st, None), (s2, None)]
                own = "defer_lock" not in mg
                if own and "adopt_lock" not in mg: self.acquire(st, ins, cls, ix, True, rec)
                self.put(st, None, rest + [(root, cls, ("lin", ix), own)])
                return [(st, None)]
            if g is None: return [(st, None)]
            if meth in ("owns_lock", "operator bool"): return [(st, ("C", TRUE if g[3] else FALSE))]
            if meth == "lock":
                self.acquire(st, ins, g[1], g[2][1], True, rec); self.put(st, None, rest + [(g[0], g[1], g[2], True)]); return [(st, None)]
            if meth == "try_lock":
                s2 = st.copy()
                self.acquire(st, ins, g[1], g[2][1], False, rec); self.put(st, None, rest + [(g[0], g[1], g[2], True)])
                return [(st, ("C", TRUE)), (s2, ("C", FALSE))]
            if meth == "unlock" or meth.startswith("~"):
                if g[3]: self.release(st, ins, g[1], g[2][1])
                self.put(st, None, rest if meth.startswith("~") else rest + [(g[0], g[1], g[2], False)])
                return [(st, None)]
            return [(st, None)]
        f = self.m.fns.get(ins.x.get("fn"))
        if f is not None and f.blocks: return self.on_project_call(st, ins, f, args)
        self.on_other_call(st, ins, name, args)
        return None

    def on_other_call(self, st, ins, name, args): pass

    def unwind(self, st, ins):
        if is_lock_call(ins.callee) and not GUARD.match(ins.callee): return []   # taking a lock does not fail here
        return super().unwind(st, ins)


def throws(m):
    """project functions an exception can leave"""
    out = set(); ch = True
    def ext(i):
        if i.op not in ("call", "invoke") or i.x.get("nothrow") or i.callee.startswith("llvm.") or is_lock_call(i.callee): return False
        k = i.x.get("fn")
        f = m.fns.get(k) if k else None
        if f is not None and f.blocks: return k in out
        if k is None: return True
        return k.startswith("_Z") or k in ("__cxa_throw", "__cxa_rethrow")
    while ch:
        ch = False
        for k, f in m.fns.items():
            if k in out or not f.blocks: continue
            t = any(ext(i) for b in f.blocks for i in b if i.op == "call")
            if not t and any(b[-1].op == "resume" for b in f.blocks): t = any(ext(i) for b in f.blocks for i in b if i.op == "invoke")
            if t: out.add(k); ch = True
    return ext
