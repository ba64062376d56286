"""C21: files, directories and sockets are closed once and never used after closing."""
import ctx, functools
from common import *

EXPLANATION = ("Resource typestate by path-sensitive abstract interpretation, exceptional edges included. Every function that opens, closes or uses a file, directory or socket of the C library is followed once with the handle of its object closed and once with it open: "
               "no handle is closed that is not open, none is used that is not open, none is forgotten (overwritten, or out of scope) while open, and at the end the object holds an open handle or says that it has none. Constructors leave no handle, destructors leave none open. "
               "What a function can only do with its object closed becomes a condition at each of its calls. Only these functions change the handle, and the objects that own handles are never copied. "
               "Stopping a logger is followed to its end: every device's file and socket was found closed or closed.")
RULE = "closed -> opened -> used* -> closed, per handle; exit: object's handle in {none, open}, no other handle open; stop: all handles of the logger closed"
ASSUMPTIONS = ["handles of a device are used by one thread at a time (C11)", "files and sockets a program opens itself through the handler classes are its own business"]

GET = {"fopen": "P", "fopen64": "P", "fdopen": "P", "freopen": "P", "popen": "P", "tmpfile": "P", "opendir": "P", "fdopendir": "P",
       "socket": "I", "open": "I", "open64": "I", "openat": "I", "creat": "I", "dup": "I", "accept": "I", "accept4": "I", "epoll_create1": "I"}
PUT = {"fclose": 0, "pclose": 0, "closedir": 0, "close": 0, "freopen": 2}
USE = {"fread": 3, "fwrite": 3, "fgets": 2, "fputs": 1, "fputc": 1, "putc": 1, "fgetc": 0, "getc": 0, "ungetc": 1, "fflush": 0, "fileno": 0, "ftell": 0, "fseek": 0, "rewind": 0, "feof": 0, "ferror": 0, "setvbuf": 0, "fprintf": 0,
       "readdir": 0, "dirfd": 0, "fsync": 0, "fdatasync": 0, "fstat": 0, "fstat64": 0, "posix_fadvise": 0, "fcntl": 0, "ftruncate": 0, "lseek": 0,
       "sendto": 0, "send": 0, "sendmsg": 0, "recvfrom": 0, "recv": 0, "bind": 0, "connect": 0, "listen": 0, "setsockopt": 0, "getsockopt": 0, "ioctl": 0, "shutdown": 0}
METHOD = re.compile(r"^((?:FNLog::)?(FileHandler|UDPHandler))::(~?\w+)(?:\[abi:\w+\])?$")


def calls(f):
    for b in f.blocks:
        for i in b:
            if i.op in ("call", "invoke"): yield i


def thisix(g):
    """which argument is the object (the first may be the place of the result); None for a static function"""
    for i, a in enumerate(g.args[:2]):
        if a[0] == "ptr" and a[1] == "this": return i
    return None


def field_of(f, v):
    while v[0] == "i":
        d = f.inst.get(v[1])
        if d is None or d.op != "getelementptr": return None
        fs = [p for p in d.x["path"] if p[0] == "f"]
        if fs: return (fs[-1][1], fs[-1][3])
        v = d.a[0]
    return None


class World:
    """the handler classes, their handle fields, and what their members do"""
    def __init__(self, m, res):
        self.m = m; self.res = res; self.memo = {}; self.field = {}
        for f in m.fns.values():
            if not f.blocks: continue
            for b in f.blocks:
                for i in b:
                    if i.op != "store" or i.a[0][0] != "i": continue
                    d = f.inst.get(i.a[0][1])
                    if d is None or d.op not in ("call", "invoke") or d.callee not in GET: continue
                    p = field_of(f, i.a[1])
                    if p and not p[0].startswith("std::"): self.field[p[0]] = p[1]
        res.need(len(self.field), "classes that own a handle", 2)
        self.short = {c.split("::")[-1]: c for c in self.field}

    def method(self, name, ins=None):
        x = METHOD.match(name)
        return (x.group(3), x.group(2)) if x and x.group(2) in self.short else None

    def summary(self, f, entry):
        k = (f.key, entry)
        if k not in self.memo:
            self.memo[k] = ({("none", None), ("open", None)} if entry != "open" else {("none", None), ("open", None)}, {})     # while it is being computed (recursion)
            e = Own(self, f, entry); e.run(f)
            self.memo[k] = (e.exits, e.found); self.res.fns.add(f.name)
            self.n = getattr(self, "n", 0) + e.nobl
            for q, v in e.hits.items(): self.res.count(q, v)
        return self.memo[k]

    def needs(self, f):
        """the state of its object a member function needs: None = any"""
        a = self.summary(f, "none")[1]; b = self.summary(f, "open")[1]
        if a and b: return "never"
        return "open" if a else "none" if b else None

    def isptr(self, f):
        c = self.short[self.method(f.name)[1]]
        return [z[2] for z in self.m.struct(c)["fields"] if z[0] == self.field[c]][0] == 8

    def body(self, ins):
        L = [f for f in self.m.fns.values() if f.blocks and f.name == ins.callee and f.key == ins.x.get("fn")]
        return L[0] if L else None


class Own(Base):
    """auto = (open handles of this function, {kind: (object, state)} of other objects)"""
    max_disjuncts = 4; ids_match = False

    def __init__(self, w, f, entry):
        super().__init__(w.m); self.w = w; self.f0 = f; self.entry = entry; self.exits = set(); self.found = {}; self.hits = {}; self.nobl = 0
        self.hid = {}
        x = w.method(f.name)
        self.ti = thisix(f)
        self.own = w.short[x[1]] if x and self.ti is not None and entry else None
        self.meth = x[0] if x else ""

    def bad(self, k, ins, msg): self.found.setdefault(k, (ins.where(), msg))
    def check(self, ok, k, ins, msg):
        self.nobl += 1
        if not ok: self.bad(k, ins, msg)
        else: self.w.res.ok("%s %s" % (self.f0.name.split("FNLog::")[-1], k))
    def hit(self, k): self.hits[k] = self.hits.get(k, 0) + 1

    def handle(self, key, ptr):
        n = self.intern(("h",) + key, "handle", None, 1 if ptr else 0, (1 << 62) if ptr else (1 << 31) - 1)
        self.hid[n] = ("h",) + key
        return n
    def value(self, n, ptr): return ("P", ("s", n), ()) if ptr else ("L", ls(n))
    def nothing(self, ptr): return ("P", ("null",), ()) if ptr else ("L", lc(-1))

    def setup(self, st):
        st.auto = ((), ())
        self.thiskey = None
        if self.own:
            self.isptr = self.m.struct(self.own) and self.ftype() == 8
            if self.entry == "open":
                n = self.handle(("entry",), self.isptr)
                st.auto = (((n,)), ())
            self.first = self.value(n, self.isptr) if self.entry == "open" else self.nothing(self.isptr) if self.entry == "none" else None
    def ftype(self): return [z[2] for z in self.m.struct(self.own)["fields"] if z[0] == self.w.field[self.own]][0]

    def mine(self, p):
        return self.own and p[0] == "P" and p[1] == self.argv[self.ti][1] and any(s[0] == "f" and s[1] == self.own and s[2] == self.w.field[self.own] for s in p[2])
    def load_mem(self, st, ins, ptr):
        if self.mine(ptr):
            k = self.memkey(ptr)
            if k not in st.mem:
                if self.first is None:
                    self.bad("uninitialised", ins, "the handle is used before it was set"); return super().load_mem(st, ins, ptr)
                st.mem[k] = self.first
            return st.mem[k]
        return super().load_mem(st, ins, ptr)
    def cell(self, st):
        """what the object's handle is now"""
        for k, v in st.mem.items():
            if k[0] == self.argv[self.ti][1] and any(s[0] == "f" and s[2] == self.w.field[self.own] for s in k[1]): return k, v
        return None, self.first
    def call_preserves(self, st, ins, name, key):
        if self.own and key[0] == self.argv[self.ti][1]: return True
        return super().call_preserves(st, ins, name, key)

    def who(self, st, v):
        """'none', a handle, or None (not known)"""
        if v is None: return None
        if v[0] == "P":
            if v[1] == ("null",): return "none"
            if v[1][0] == "s" and v[1][1] in self.hid: return v[1][1]
            return None
        l = self.lin(st, v) if v[0] in ("L", "C", "B") else None
        if l is None: return None
        l = self.strip(st, l)
        if isconst(l): return "none" if l[0] < 0 else None
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1 and l[1][0][0] in self.hid: return l[1][0][0]
        if self.hi(st, l) < 0: return "none"
        return None

    def of(self, h):
        """the handle a descriptor was taken from"""
        return self.hid[h][2] if self.hid[h][1] == "fd" else h

    def on_store(self, st, ins, p, v):
        if p[0] != "P": return
        if self.mine(p):
            self.hit("handle stores")
            old = self.cell(st)[1]
        elif self.cls(p).split(".")[-1] in self.w.field.values() and any(s[0] == "f" and self.w.field.get(s[1]) == s[2] for s in p[2]):
            self.bad("foreign", ins, "a handle is changed outside the functions of the object that owns it")

    def on_memop(self, st, ins, name, args, n):
        for a in args[:2]:
            if a[0] == "P" and n is not None and isconst(n):
                for c in self.w.field:
                    if n[0] == self.m.struct(c)["size"] and a[2] and any(s[0] == "f" and s[1].split("::")[-1] in ("Logger",) and s[2].endswith("handles_") for s in a[2]):
                        self.bad("copied", ins, "an object that owns a handle is copied: both would close it")

    # ---- other objects
    def obj(self, st, p):
        pp = ppath(p)
        for f in pp:
            if f[0] in ("Logger.file_handles_", "Logger.udp_handles_"): return (f[0], ("lin", f[1][0][0] if f[1] else ZERO))
        k = self.memkey(p)
        return ("other", ("key", repr(k)))
    def known(self, st, kind, o):
        for k, x, s in st.auto[1]:
            if k == kind and (x == o or x[0] == "lin" and o[0] == "lin" and self.same(st, x[1], o[1])): return s
        return None
    def learn(self, st, kind, o, s):
        rest = tuple(z for z in st.auto[1] if z[0] != kind)
        st.auto = (st.auto[0], tuple(sorted(rest + (((kind, o, s),) if s else ()), key=repr)))

    def on_call(self, st, ins, name, args):
        opens = st.auto[0]
        base = name.split("@")[0]
        if base in PUT and len(args) > PUT[base]:
            h = self.who(st, args[PUT[base]])
            self.hit("closing calls")
            self.check(h is not None and h != "none" and h in opens and self.of(h) == h, "close/" + base, ins, "%s is given a handle that is not open here (closed twice, never opened, or not known)" % base)
            if h in opens: st.auto = (tuple(x for x in opens if x != h), st.auto[1])
            if base not in GET: return [(st, None if ins.ty == "void" else self.opaque(st, ins, "closed"))]
            opens = st.auto[0]
        if base in GET and ins.ty in ("ptr", "i32"):
            self.hit("opening calls")
            ptr = ins.ty == "ptr"
            n = self.handle(("at", ins.id), ptr)
            self.check(n not in opens, "again/" + base, ins, "a handle opened here earlier is still open when the next one is opened")
            s2 = st.copy()
            s2.auto = (tuple(sorted(set(opens) | {n})), st.auto[1])
            return [(st, self.nothing(ptr)), (s2, self.value(n, ptr))]
        if base in USE and len(args) > USE[base]:
            a = args[USE[base]]
            h = self.who(st, a)
            if h is None and a[0] == "P" and a[1][0] in ("g", "s") and (a[1][0] == "g" or self.syms[a[1][1]].kind == "load"): return None    # stdout and the like
            self.hit("uses")
            self.check(h is not None and h != "none" and self.of(h) in opens, "use/" + base, ins, "%s is given a handle that is not open here" % base)
            if base in ("fileno", "dirfd") and h not in (None, "none"):
                n = self.intern(("fd", h), "descriptor", None, 0, (1 << 31) - 1); self.hid[n] = ("h", "fd", h)
                return [(st, ("L", ls(n)))]
            return None
        x = self.w.method(name)
        if x and args:
            g = self.w.body(ins)
            j = thisix(g) if g else None
            if j is None or args[j][0] != "P": return None
            args = args[j:]
            if self.own and args[0][1] == self.argv[self.ti][1] and not any(s[0] == "f" for s in args[0][2]) and self.w.short[x[1]] == self.own: return self.self_call(st, ins, g, x[0])
            return self.other_call(st, ins, g, x, args)
        if st.auto[1] and not name.startswith("std::") and any(a[0] == "P" and a[1][0] == "a" for a in args): st.auto = (st.auto[0], tuple(z for z in st.auto[1] if z[0] == "other"))
        return None

    def self_call(self, st, ins, g, meth):
        k, v = self.cell(st)
        h = self.who(st, v)
        s = "none" if h == "none" else "open" if h in st.auto[0] else None
        if s is None:
            self.bad("call/" + meth, ins, "%s is called while the object's handle is neither open nor marked as absent" % meth); return None
        out = []
        ex, found = self.w.summary(g, s)
        for w, (where, msg) in found.items(): self.found.setdefault(meth + "/" + w, (where, msg))
        for (s2, r) in sorted(ex, key=repr):
            t = st.copy()
            opens = t.auto[0]
            if k is None: k = self.mykey()
            if s2 == "none":
                t.mem[k] = self.nothing(self.isptr)
                if s == "open": opens = tuple(x for x in opens if x != h)
            elif s != "open":
                n = self.handle(("by", ins.id), self.isptr)
                t.mem[k] = self.value(n, self.isptr); opens = tuple(sorted(set(opens) | {n}))
            t.auto = (opens, t.auto[1])
            out.append((t, self.result(t, ins, r)))
        return out
    def mykey(self): return self.memkey(("P", self.argv[self.ti][1], (("f", self.own, self.w.field[self.own], 128),)))
    def result(self, st, ins, r):
        if ins.ty == "void": return None
        if r is not None and bits_of(ins.ty): return ("L", lc(r)) if ins.ty != "i1" else ("C", TRUE if r else FALSE)
        return self.opaque(st, ins, "result")

    def other_call(self, st, ins, g, x, args):
        meth = x[0]
        if meth == x[1]: self.learn(st, "other", self.obj(st, args[0])[1], "none"); return None
        kind, o = self.obj(st, args[0])
        s = self.known(st, kind, o)
        nd = self.w.needs(g)
        self.hit("calls on handle objects")
        if nd: self.check(s == nd, "call/" + meth, ins, self.why(g, nd))
        out = []
        for e in ([s] if s else ["none", "open"]):
            for (s2, r) in sorted(self.w.summary(g, e)[0], key=repr):
                t = st.copy(); self.learn(t, kind, o, s2)
                out.append((t, self.result(t, ins, r)))
        return out
    def why(self, g, nd):
        d = self.w.summary(g, "open" if nd == "none" else "none")[1]
        (where, msg) = sorted(d.values())[0]
        return "%s is called on an object not known to be %s: %s (%s)" % (g.name.split("::")[-1], "closed" if nd == "none" else "open", msg, where)

    def leave(self, st, ins, r):
        opens = st.auto[0]
        if self.own:
            k, v = self.cell(st)
            if self.first is None and k is None: self.bad("exit/unset", ins, "the constructor leaves the handle unset"); return
            h = self.who(st, v)
            self.check(h == "none" or h in opens, "exit/dangling", ins, "the object is left with a handle that is closed or not known to be open")
            left = tuple(x for x in opens if x != h)
            if self.meth.startswith("~"): left = opens
            self.exits.add(("open" if h in opens else "none", r))
        else: left = opens
        self.check(not left, "exit/leak", ins, "a handle that was opened is neither closed nor kept when the function ends")

    def on_ret(self, st, ins, v):
        r = None
        if v is not None and v[0] in ("L", "C", "B"):
            l = self.lin(st, v)
            if isconst(l): r = l[0]
        self.leave(st, ins, r)
    def on_unwind_exit(self, st, ins): self.leave(st, ins, None)
    def unwind(self, st, ins):
        x = self.w.method(ins.callee)
        if x and x[0].startswith("~"): return []
        return super().unwind(st, ins)


class Stop(Base):
    """auto = per kind of handle, how many of the logger's are known to be closed"""
    max_disjuncts = 6; sizes_known = True
    KIND = {"Logger.file_handles_": 0, "Logger.udp_handles_": 1}
    rel_join = True
    def __init__(self, m, res):
        super().__init__(m); self.res = res; self.n = {}; self.rel_coefs = (1, -1, self.NDEV, -self.NDEV)
        self.thresholds = tuple(sorted(set(Engine.thresholds) | {self.NDEV, self.NCHAN, self.NDEV * self.NCHAN}))
    def setup(self, st): st.auto = (("lin", ZERO), ("lin", ZERO))
    def settle(self, st, kind, ix):
        i = self.KIND[kind]; p = st.auto[i][1]
        ok = self.same(st, p, ix)
        if not ok:      # the rest of a channel's entries belongs to devices it does not have
            for k, v in st.mem.items():
                if kcls(k) != "Channel.device_size_" or v[0] != "L": continue
                c = index_of(parse(k[1]), "SHMLogger.channels_") or ZERO
                if self.same(st, ix, lmul(ladd(c, lc(1)), self.NDEV)) and self.prove_ge(st, ladd(p, ladd(lmul(c, self.NDEV), v[1]), -1)): ok = True
        if ok:
            a = list(st.auto); a[i] = ("lin", ladd(ix, lc(1))); st.auto = tuple(a)
    def on_call(self, st, ins, name, args):
        x = METHOD.match(name)
        if not x or not args or args[0][0] != "P": return None
        pp = ppath(args[0])
        for f, ix in pp:
            if f in self.KIND:
                ix = ix[0][0] if ix else ZERO
                self.n[f] = self.n.get(f, 0) + 1
                if x.group(3) == "is_open":
                    s2 = st.copy(); self.settle(s2, f, ix)
                    return [(st, ("C", TRUE)), (s2, ("C", FALSE))]
                if x.group(3) in ("close", "~FileHandler", "~UDPHandler"): self.settle(st, f, ix)
        return None
    def call_preserves(self, st, ins, name, key): return True
    def on_branch(self, st, ins, cond, taken):
        def norm(l):
            for s, c in l[1]:
                b = self.sbnd(st, s)
                if b[0] == b[1]: l = lsub(l, {s: lc(int(b[0]))})
            return l
        st.auto = tuple(("lin", norm(p)) for _, p in st.auto)
        for k, v in st.env.items():
            if v[0] == "L" and v[1][1]: st.env[k] = ("L", norm(v[1]))
    def on_ret(self, st, ins, v):
        l = self.lin(st, v) if v is not None and v[0] in ("L", "C", "B") else None
        if l is None or self.decide(st, ("eq", l)) is False: return
        n = self.memlin(st, "SHMLogger.channel_size_")
        self.n["ends"] = self.n.get("ends", 0) + 1
        for i, what in enumerate(("file", "socket")):
            p = st.auto[i][1]
            ok = self.prove_ge(st, ladd(p, lc(-self.NDEV * self.NCHAN))) or n is not None and self.prove_ge(st, ladd(p, lmul(n, self.NDEV), -1))
            self.res.check(ok, "stop/" + what, ins.where(), "a logger can be stopped with a %s of a device still open" % what, what="stop closes every " + what)


def run(res, config):
    m = ctx.module(config, keep=ctx.DEVICES, eh=True)
    w = World(m, res)
    direct, users = [], []
    for f in m.fns.values():
        if not f.blocks: continue
        cs = set(i.callee for i in calls(f))
        raw = cs & (set(GET) | set(PUT))
        if w.method(f.name) and thisix(f) is not None: direct.append(f)
        elif raw: users.append((f, True))
        elif any(w.method(c) for c in cs): users.append((f, False))
    res.need(len(direct), "member functions of handle objects", 10)
    pre = {}
    for f in direct:
        x = w.method(f.name)
        nm = f.name.replace("FNLog::", "")
        if x[0] == x[1]:
            ex, bad = w.summary(f, "raw")
            res.check(all(s == "none" for s, _ in ex), nm + "/constructed", nm, "a new object does not start without a handle")
        else:
            if x[0].startswith("~"):
                for e in ("none", "open"):
                    ex, bad = w.summary(f, e)
                    for k, (where, msg) in bad.items(): res.bad(nm + "/" + k, where, msg)
                    res.check(all(s == "none" for s, _ in ex), nm + "/left-open", nm, "destroying the object can leave its handle open")
                continue
            nd = w.needs(f)
            a, b = w.summary(f, "none")[1], w.summary(f, "open")[1]
            ptr = w.isptr(f)
            bad = {}
            if nd in ("none", "never"): bad.update(b)
            if nd == "never" or nd == "open" and ptr: bad.update(a)     # a call on the invalid socket number fails harmlessly: left to the callers
            if nd in ("none", "open"): pre[f.name] = nd
            if x[0] == "is_open":
                for e in ("none", "open"):
                    res.check(all(r is not None and (r != 0) == (e == "open") and s == e for s, r in w.summary(f, e)[0]), nm + "/reports", nm, "whether the object has an open handle is reported wrongly")
        for k, (where, msg) in bad.items(): res.bad(nm + "/" + k, where, msg)
    for f, raw in users:
        if not raw and not any(c.callee in pre for c in calls(f)): continue
        e = Own(w, f, None); e.run(f); res.fns.add(f.name)
        for k, v in e.hits.items(): res.count(k, v)
        for k, (where, msg) in e.found.items(): res.bad(f.name.replace("FNLog::", "") + "/" + k, where, msg)
    res.notes.append("called only on closed objects: " + ", ".join(sorted(k for k, v in pre.items() if v == "none")))
    for k in ("opening calls", "closing calls", "uses"): res.need(res.counts.get(k, 0), k)
    # nothing else changes a handle, nothing copies an object that owns one
    for f in m.fns.values():
        if not f.blocks: continue
        own = w.method(f.name)
        for b in f.blocks:
            for i in b:
                if i.op == "store":
                    p = field_of(f, i.a[-1])
                    if p and w.field.get(p[0]) == p[1]:
                        res.check(bool(own), "foreign/" + f.name, i.where(), "a handle is changed outside the functions of the object that owns it")
        x = METHOD.match(f.name)
        if x and x.group(2) in w.short and (x.group(3) == "operator=" or x.group(3) == x.group(2) and len(f.args) > 1): res.bad("copied", f.name, "objects that own a handle can be copied")
    e = Stop(m, res); f = m.fn("vroot_stop"); e.run(f); res.fns.add(f.name)
    for k in ("Logger.file_handles_", "Logger.udp_handles_", "ends"): res.need(e.n.get(k, 0), "stop: " + k)
