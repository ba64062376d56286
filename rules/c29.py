"""C29: what reaches a file, a socket or the screen is the record's text, whole and unchanged."""
import ctx
from devices import *

EXPLANATION = ("Path-sensitive abstract interpretation in two steps. First the functions that write to a file and to a socket are analysed for symbolic data, length, address and port: on every path with an open handle and text to write, the system "
               "(or stream) call gets the data from its first byte, in the given length, and the open handle; the address structure handed to the socket call holds exactly the address and port parameters at that moment. Then handing one record to one "
               "device is analysed with all writers expanded: the data and length handed to these functions are the record's text from its first byte and its stored length, the address and port are those configured for that very device, the screen "
               "prints the text once through a plain string conversion (or by its stored length), and nothing is stored into the record on the way.")
RULE = "written bytes == (content_, content_len_), by one complete call; address, port == the device's own settings; no store into the record"
ASSUMPTIONS = ["fwrite and sendto put out what they report", "the record holds no zero byte before its end where it is printed as a string (C02 for the terminator)", "a device's settings do not change while one record is written"]

FWRITE = ("fwrite", "fwrite_unlocked")


class FileWrite(Base):
    """auto = (bytes put out so far, failed)"""
    max_disjuncts = 16

    def __init__(self, m, res):
        super().__init__(m); self.res = res; self.n = {}
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1

    def setup(self, st):
        ps = [i for i, a in enumerate(self.argv) if a[0] == "P"]; ls_ = [i for i, a in enumerate(self.argv) if a[0] == "L"]
        if len(ps) != 2 or len(ls_) != 1: raise AnalysisError("%s takes other arguments" % self.f.name)
        self.data = self.argv[ps[1]]; self.len = self.argv[ls_[0]][1]; self.pos = (ps[1], ls_[0])
        self.bound_arg(st, ls_[0], 0, 1 << 31)
        st.auto = (("lin", ZERO), False)

    def call_preserves(self, st, ins, name, key):
        return kcls(key) == "FileHandler.file_" and name.startswith("f") or super().call_preserves(st, ins, name, key)

    def stream(self, st):
        for k, v in st.mem.items():
            if kcls(k) == "FileHandler.file_" and v[0] == "P": return v
        return None

    def on_call(self, st, ins, name, args):
        if name in FWRITE or name in ("fputs", "fputs_unlocked", "fputc", "putc", "fprintf", "vfprintf", "write", "pwrite"):
            self.hit("stream writes")
            (_, done), failed = st.auto
            if name == "write":
                self.res.bad("file/unbuffered", ins.where(), "text is written past the file's buffer"); return None
            if name not in FWRITE:
                self.res.bad("file/call", ins.where(), "the text of a record is written by %s, which does not take a length" % name); return None
            p, size, n, fp = args[:4]
            size = self.lin(st, size); n = self.lin(st, n)
            amt = lmul(n, size[0]) if isconst(size) else lmul(size, n[0]) if isconst(n) else None
            off = self.offset(st, p)
            self.res.check(off is not None and self.same(st, off, done), "file/start", ins.where(), "what is written to the file does not start where the record's text goes on", what="fwrite starts at the text's first byte")
            room = amt is not None and self.prove_ge(st, ladd(ladd(self.len, done, -1), amt, -1))
            self.res.check(room, "file/length", ins.where(), "more than the record's text can be written to the file", what="fwrite takes no more than the given length")
            s = self.stream(st)
            self.res.check(s is not None and fp[0] == "P" and fp[1:] == s[1:], "file/handle", ins.where(), "something else than the open file is written to", what="fwrite to the open file")
            if amt is None: return None
            v = self.opaque(st, ins, "written"); s2 = st.copy(); out = []
            try:
                self.assume(st, ("eq", ladd(v[1], n, -1))); st.auto = (("lin", ladd(done, amt)), False); out.append((st, v))
            except Infeasible: pass
            try:
                self.assume(s2, ("ge", ladd(ladd(n, v[1], -1), lc(-1)))); self.assume(s2, ("ge", v[1]))
                got = lmul(v[1], size[0]) if isconst(size) else lmul(size, v[1][0]) if isconst(v[1]) else None
                s2.auto = (("lin", ladd(done, got) if got is not None else done), True); out.append((s2, v))
            except Infeasible: pass
            return out
        return None

    def offset(self, st, p):
        if p[0] != "P" or p[1] != self.data[1]: return None
        o = ZERO
        for s in p[2]:
            if s[0] != "x": return None
            o = ladd(o, lmul(s[1], s[2] if len(s) > 2 and isinstance(s[2], int) else 1))
        return o

    def on_ret(self, st, ins, v):
        self.hit("exits")
        (_, done), failed = st.auto
        if failed: return
        if self.same(st, done, self.len) or self.prove_ge(st, ladd(done, self.len, -1)): return
        s = self.stream(st)
        shut = s is not None and (s[1] == ("null",) or self.decide(st, ("eq", self.plin(st, s))) is True)
        if shut: return
        self.res.bad("file/incomplete", ins.where(), "a path with an open file ends although the text was not written completely")


class SockWrite(Base):
    """auto = number of datagrams sent; learns which argument is what"""
    def __init__(self, m, res):
        super().__init__(m); self.res = res; self.n = {}; self.role = None; self.narrow = {}
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st): st.auto = 0

    def argno(self, l):
        for i, a in enumerate(self.argv):
            if a[0] == "L" and a[1] == l: return i
        return None
    def trunc_keeps(self, st, ins, l, w):
        i = self.argno(l)
        if i is not None: self.narrow[i] = min(w, self.narrow.get(i, 64))
        return i is not None
    def uns(self, st, l, w, ins):
        return l if self.argno(l) is not None else super().uns(st, l, w, ins)

    def handler(self, st):
        for k, v in st.mem.items():
            if kcls(k) == "UDPHandler.handler_" and v[0] == "L": return v[1]
        return None

    def at(self, st, ptr, cls):
        pre = ppath(ptr)
        for k, v in st.mem.items():
            if k[0] == ptr[1] and kcls(k) == cls and v[0] in ("L", "B", "C") and [f for f, _ in parse(k[1])][:len(pre)] == [f for f, _ in pre]: return self.lin(st, v)
        return None

    def on_call(self, st, ins, name, args):
        if name in ("send", "sendmsg", "write", "sendmmsg"):
            self.res.bad("socket/call", ins.where(), "a datagram is sent by %s, without the device's address" % name); return None
        if name != "sendto": return None
        self.hit("datagrams")
        fd, p, n, flags, addr, alen = args[:6]
        h = self.handler(st)
        self.res.check(h is not None and self.same(st, self.lin(st, fd), h), "socket/handle", ins.where(), "something else than the open socket is sent to", what="sendto on the open socket")
        d = [i for i, a in enumerate(self.argv) if a[0] == "P" and p[0] == "P" and a[1] == p[1] and not p[2]]
        ln = self.argno(self.lin(st, n))
        ip = self.at(st, addr, "in_addr.s_addr") or self.at(st, addr, "sockaddr_in.sin_addr"); port = self.at(st, addr, "sockaddr_in.sin_port")
        ip = None if ip is None else self.argno(ip); port = None if port is None else self.argno(port)
        for x, need in ((ln, 31), (ip, 32), (port, 16)):
            if x is not None: self.res.check(self.narrow.get(x, 64) >= need, "socket/narrowed", ins.where(), "a length, address or port is cut to fewer bits than it has")
        self.res.check(len(d) == 1, "socket/start", ins.where(), "what is sent does not start at the first byte of the data", what="sendto starts at the data's first byte")
        self.res.check(ln is not None, "socket/length", ins.where(), "what is sent is not the data in its length", what="sendto takes the given length")
        self.res.check(ip is not None, "socket/address", ins.where(), "the datagram does not go to the address given", what="sendto to the address given")
        self.res.check(port is not None, "socket/port", ins.where(), "the datagram does not go to the port given", what="sendto to the port given")
        self.res.check(st.auto == 0, "socket/twice", ins.where(), "the data are sent twice")
        st.auto = min(st.auto + 1, 2)
        if len(d) == 1 and None not in (ln, ip, port): self.role = {"data": d[0], "len": ln, "ip": ip, "port": port}
        return None

    def on_ret(self, st, ins, v):
        self.hit("exits")
        if st.auto: return
        h = self.handler(st)
        self.res.check(h is not None and self.decide(st, ("ge", h)) is False, "socket/silent", ins.where(), "a path with an open socket ends without having sent the data", what="no datagram only where the socket is not open")


class Text(DevPath):
    def __init__(self, m, res, w, fpos, role):
        super().__init__(m, res, w); self.fpos = fpos; self.role = role
        self.CFG["UDP_IP"] = m.enum("DEVICE_CFG_UDP_IP"); self.CFG["UDP_PORT"] = m.enum("DEVICE_CFG_UDP_PORT")

    def trunc_keeps(self, st, ins, l, w):
        return any(w >= need and self.cfg(st, c) == l for c, need in (("UDP_IP", 32), ("UDP_PORT", 16)))
    def uns(self, st, l, w, ins):
        return l if any(self.cfg(st, c) == l for c in ("UDP_IP", "UDP_PORT")) else super().uns(st, l, w, ins)

    def whole(self, st, a):
        return self.text_of_record(a) and all(isconst(i) and i[0] == 0 for f, ix in ppath(a) if f == "LogData.content_" for i, *_ in ix)

    def handle(self, st, ins, what, meth, ix, args):
        if meth != "write": return
        self.hit(what + " writes")
        d, n = self.fpos if what == "file" else (self.role["data"], self.role["len"])
        own = self.rec(st, "content_len_")
        self.res.check(self.whole(st, args[d]), what + "/text", ins.where(), "something else than this record's text from its first byte is written", what="%s gets content_" % what)
        self.res.check(own is not None and self.same(st, self.lin(st, args[n]), own), what + "/text-length", ins.where(), "the text is not written in its stored length", what="%s gets content_len_" % what)
        if what == "udp":
            for k, c in (("ip", "UDP_IP"), ("port", "UDP_PORT")):
                x = self.cfg(st, c)
                self.res.check(x is not None and self.same(st, self.lin(st, args[self.role[k]]), x), "udp/" + k, ins.where(), "a record is sent to something else than the %s configured for its device" % ("address" if k == "ip" else "port"), what="datagram to the device's own " + k)

    def literal(self, p):
        if p[0] != "P" or p[1][0] != "g": return None
        g = self.m.globals.get(p[1][1])
        if not g or "init" not in g or g["init"][0] != "str" or p[2]: return None
        h = g["init"][1]
        return bytes.fromhex(h[:2 * self.cstr_len(h)]).decode("latin-1")

    def screen(self, st, ins, args):
        self.hit("screen outputs")
        texts = [i for i, a in enumerate(args) if self.text_of_record(a)]
        ok = len(texts) == 1 and self.whole(st, args[texts[0]])
        why = "something else than the record's text, once, from its first byte is printed"
        if ok:
            base = PRINT.match(self.cname).group(1)
            if base in ("printf", "fprintf"):
                fi = 0 if base == "printf" else 1
                f = self.literal(args[fi])
                if f is None: ok = False; why = "a record is printed with a format that is not constant"
                else:
                    a = fi + 1; found = False
                    for t in re.findall(r"%(?:%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z])", f):
                        if t == "%%": continue
                        stars = t.count("*"); a += stars
                        if a == texts[0]:
                            found = t == "%s" or t == "%.*s" and self.same(st, self.lin(st, args[a - 1]), self.rec(st, "content_len_") or lc(-1))
                        a += 1
                    if not found: ok = False; why = "the record's text is not printed by a plain string conversion"
            elif base == "fputs": ok = texts[0] == 0
            elif base in ("fwrite", "write"):
                ns = [self.lin(st, x) for x in args if x[0] in ("L", "B", "C")]
                own = self.rec(st, "content_len_")
                ok = own is not None and any(self.same(st, x, own) for x in ns); why = "the text is not printed in its stored length"
            elif base == "puts": ok = False; why = "the text is printed with a newline of the printing function's own"
        self.res.check(ok, "screen/text", ins.where(), why, what="the screen gets content_")

    def on_call(self, st, ins, name, args):
        self.cname = name
        return super().on_call(st, ins, name, args)

    def on_store(self, st, ins, p, v):
        if p[1] == self.log and not self.quiet(st, p, v):
            self.res.bad("changed", ins.where(), "a record is changed (%s) while it is written to a device" % self.pathstr(p))
    def quiet(self, st, p, v):
        """a store of the value that is there, or of the terminator after the text"""
        if kcls(("", p[2])) == "LogData.content_":
            i = index_of(ppath(p), "LogData.content_"); own = self.rec(st, "content_len_")
            return i is not None and own is not None and self.same(st, i, own) and v == ("L", ZERO)
        return st.mem.get(self.memkey(p)) == v

    def mem_effect(self, st, ins, name, args, n):
        if args and args[0][0] == "P" and args[0][1] == self.log:
            self.res.bad("changed", ins.where(), "a record is changed while it is written to a device")
        return super().mem_effect(st, ins, name, args, n)

    def on_ret(self, st, ins, v): self.hit("exits")


def run(res, config):
    m = ctx.module(config, keep=("^FNLog::FileHandler::write$", "^UDPHandler::write$"), expand=("^FNLog::FileHandler::", "^UDPHandler::"))
    f = m.fn("FNLog::FileHandler::write")
    e = FileWrite(m, res); e.run(f); res.fns.add(f.name)
    for k in ("stream writes", "exits"): res.need(e.n.get(k, 0), k)
    f = m.fn("UDPHandler::write")
    s = SockWrite(m, res); s.run(f); res.fns.add(f.name)
    for k in ("datagrams", "exits"): res.need(s.n.get(k, 0), k)
    if s.role is None:
        return
    m = ctx.module(config, keep=("^FNLog::EnterProcDevice$",))
    f = writer(m)
    t = Text(m, res, "device", e.pos, s.role); t.run(f); res.fns.add(f.name)
    for k in ("file writes", "udp writes", "screen outputs", "exits"): res.need(t.n.get(k, 0), k)
