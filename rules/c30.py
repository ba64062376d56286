"""C30: a record's text is built by appending only: no gaps, nothing rewritten or lost, given text verbatim."""
import ctx
from c01 import Bounds, STREAM
from common import *

EXPLANATION = ("Abstract interpretation of every stream operation, the record constructor and the printf-style front end, with their helpers expanded, tracking the place up to which the text is written without a gap: each write into the text starts "
               "there (or, at most, rewrites bytes beyond the record's current length), so no byte of a former record's text can become part of this one and nothing already in the text changes; the length never decreases (a full record may give up its "
               "last two bytes, where newline and terminator go), and when an operation ends it is no more than what is written. Text and buffers given to a stream are copied from their first byte on, completely or up to the end of the record's room.")
RULE = "write at offset o: length <= o <= end written so far, or o == end; each new length >= the old one; at the end of an operation: length <= end written; given text: end == old length + its length, or the room is full"
ASSUMPTIONS = ["the byte formatters write each byte up to the length they return (their bounds: C01; their values: C40)", "a formatted print that reports an error has written nothing", "strings are shorter than 2 GB", "where given text is copied byte by byte rather than by a copying call, that all of it is copied is not decided (that no gap is left is)"]
VERBATIM = {"buffer": "the buffer", "cstr": "the string", "string": "the string"}


class Mute:
    """bounds are C01's business"""
    def __getattr__(self, k): return lambda *a, **kw: None
    viol = {}
    class _F(set): pass
    fns = _F()


class Append(Bounds):
    """auto = (length when the operation began, end of what is written without a gap, bytes copied of the given text, length of the given text)"""
    max_disjuncts = 8

    def __init__(self, m, out, w, memo):
        super().__init__(m, Mute(), w, memo); self.out = out; self.op = w; self.k = {}; self.busy = 0
        if w in VERBATIM: self.max_disjuncts = 64

    def note(self, x): self.k[x] = self.k.get(x, 0) + 1

    def setup(self, st):
        super().setup(st)
        st.auto = (None, None, None, None)

    def cur(self, st):
        for k, v in st.mem.items():
            if kcls(k) == "LogData.content_len_" and v[0] == "L": return v[1]
        return None

    def begin(self, st, l):
        if st.auto[0] is None: st.auto = (("lin", l), ("lin", l)) + st.auto[2:]

    def on_load(self, st, ins, p, v):
        super().on_load(st, ins, p, v)
        if self.cls(p) == "LogData.content_len_" and v[0] == "L": self.begin(st, v[1])

    def on_store(self, st, ins, p, v):
        if self.cls(p) != "LogData.content_len_": return
        l = self.lin(st, v); old = self.cur(st)
        if old is not None and not (self.op == "LogStream" and l == ZERO):
            self.out.check(self.prove_ge(st, ladd(l, old, -1)) or self.prove_ge(st, ladd(l, lc(2 - self.SIZE))), self.op + "/lost", ins.where(), "the text can become shorter than it was (%s after %s)" % (self.linstr(l), self.linstr(old)), what="%s: the text is not shortened" % self.op)
        if st.auto[0] is None or (self.op == "LogStream" and l == ZERO): st.auto = (("lin", l), ("lin", l)) + st.auto[2:]

    def append(self, st, ins, o, n):
        """n bytes at offset o"""
        if isconst(n) and n[0] == 0: return
        if st.auto[1] is None:
            l = self.cur(st)
            if l is None: self.out.bad(self.op + "/where", ins.where(), "a record's text is written without looking at its length"); return
            self.begin(st, l)
        self.note("text writes")
        (_, e) = st.auto[1]
        ge = lambda a, b: self.prove_ge(st, ladd(a, b, -1))
        if self.same(st, o, e) or ge(o, e) and ge(e, o): new = ladd(e, n)
        else:
            self.out.check(ge(e, o), self.op + "/gap", ins.where(), "bytes of the record's text can be left out (written at %s, written so far up to %s): they would hold a former record's text" % (self.linstr(o), self.linstr(e)), what="%s: no gap" % self.op)
            l = self.cur(st)
            self.out.check(l is not None and ge(o, l), self.op + "/rewritten", ins.where(), "text the record already holds can be overwritten (at %s)" % self.linstr(o), what="%s: nothing rewritten" % self.op)
            new = e if ge(e, ladd(o, n)) else ladd(o, n)
        self.out.check(True, self.op + "/append", ins.where(), "", what="%s: write at the end" % self.op)
        st.auto = st.auto[:1] + (("lin", new),) + st.auto[2:]

    def on_access(self, st, ins, ptr, size, write):
        if not write or self.busy: return
        pl = self.place(st, ptr)
        if pl and pl[0] == "text":
            if ins.op == "store" and self.val(st, ins.a[0]) == ("L", ZERO):       # a terminator is no text
                l = self.cur(st)
                if l is not None and self.prove_ge(st, ladd(pl[1], l, -1)): return
            self.append(st, ins, pl[1], size)
            if self.op in VERBATIM and ins.op == "store" and self.val(st, ins.a[0])[0] == "L" and not isconst(self.val(st, ins.a[0])[1]):
                st.auto = st.auto[:3] + ("byte by byte",)     # copied one by one: how many is not decided

    def trunc_keeps(self, st, ins, l, w):
        return w >= 32 and st.auto[2] is not None and l == st.auto[2][1]

    def on_memop(self, st, ins, name, args, n):
        super().on_memop(st, ins, name, args, n)
        if self.op not in VERBATIM or self.op == "string" or name.startswith("llvm.memset") or st.auto[0] is None: return
        pl = self.place(st, args[0]); src = args[1]
        if not (pl and pl[0] == "text") or src[0] != "P" or src[1] != [a for a in self.argv if a[0] == "P"][1][1]: return
        off = ZERO
        for x in src[2]:
            off = ladd(off, lc(x[3])) if x[0] == "f" else ladd(off, x[1], x[2])
        want = ladd(pl[1], st.auto[0][1], -1)
        self.note("copies of given text")
        self.out.check(self.same(st, off, want) or self.prove_ge(st, ladd(off, want, -1)) and self.prove_ge(st, ladd(want, off, -1)), self.op + "/other-part", ins.where(), "%s given is not copied from its first byte on (from %s)" % (VERBATIM[self.op], self.linstr(off)), what="%s: copied from its first byte on" % self.op)

    def on_call(self, st, ins, name, args):
        base = name.split("(")[0]
        if base == "FNLog::LogStream::~LogStream": self.end(st, ins)
        pl = [(i, self.place(st, a)) for i, a in enumerate(args) if a[0] == "P"]
        pl = [(i, p) for i, p in pl if p and p[0] == "text"]
        if base in ("snprintf", "vsnprintf", "__snprintf_chk", "__vsnprintf_chk") and pl:
            o = pl[0][1][1]; room = self.uns(st, self.lin(st, args[1]), 64, ins)
            self.note("formatted prints")
            r = self.fresh(st, "printed", None, ins, -1, (1 << 31) - 1)
            out = []
            for cs, wr in (((("ge", ladd(lc(-1), ls(r), -1)),), ZERO), ((("ge", ls(r)), ("ge", ladd(ladd(room, ls(r), -1), lc(-1)))), ls(r)), ((("ge", ls(r)), ("ge", ladd(ls(r), room, -1)), ("ge", ladd(room, lc(-1)))), ladd(room, lc(-1)))):
                s = st.copy()
                try:
                    for c in cs: self.assume(s, c)
                except Infeasible: continue
                if wr == ZERO: self.append(s, ins, o, ZERO)
                else:
                    if s.auto[1] is None: self.append(s, ins, o, ZERO)
                    self.append(s, ins, o, wr)
                out.append((s, ("L", ls(r))))
            return out
        if base == "strlen" and args and args[0][0] == "P" and args[0][1][0] == "arg" and not args[0][2] and self.op == "cstr":
            n = ls(self.fresh(st, "strlen", None, ins, 0, (1 << 31) - 1))
            st.auto = st.auto[:2] + (("lin", n), None)
            return [(st, ("L", n))]
        if pl and ("std::copy" in name or "std::fill" in name):
            r = self.std_copy(st, ins, name, args)
            if r is not None: return r
        if pl:
            self.busy += 1
            try: r = super().on_call(st, ins, name, args)
            finally: self.busy -= 1
            f = self.m.fns.get(ins.x.get("fn"))
            if f is not None and f.blocks and self.text_fn(f):
                self.note("formatters")
                for k, q in self.memo.items():
                    if isinstance(k, tuple) and k[0] == f.key and q and q[0] != INF and q[2] != INF:
                        self.out.check(q[2] <= q[0], self.op + "/formatter", f.name, "%s can report a length (%s) beyond the furthest byte it writes (%s)" % (f.name, q[2], q[0]), what="%s: no length beyond what is written" % f.name)
                for s, v in r or []:
                    for i, p in pl:
                        if v is not None and v[0] == "L": self.append(s, ins, p[1], v[1])
            return r
        r = super().on_call(st, ins, name, args)
        if self.op == "string" and r and name.split("[abi")[0].rsplit("::", 1)[-1] in ("length", "size") and r[0][1] and r[0][1][0] == "L":
            s, v = r[0]
            if s.auto[2] is None:
                self.set_bnd(s, v[1][1][0][0], 0, (1 << 31) - 1); s.auto = s.auto[:2] + (("lin", v[1]), None)
        return r

    def on_ret(self, st, ins, v): self.end(st, ins)

    def end(self, st, ins):
        self.note("ends of operations")
        b, e = st.auto[:2]
        if b is None: return
        l = self.cur(st)
        if l is None: return
        ge = lambda x, y: self.prove_ge(st, ladd(x, y, -1))
        self.out.check(self.same(st, l, e[1]) or ge(e[1], l), self.op + "/unwritten", ins.where(), "an operation can end with a length (%s) beyond what it has written (%s)" % (self.linstr(l), self.linstr(e[1])), what="%s: length <= written" % self.op)
        if self.op in VERBATIM:
            if self.given(st) is None: return
            self.note("given texts")
            self.out.check(st.auto[3] is not None or self.complete(st), self.op + "/cut", ins.where(), "%s given can be cut although the record has room (%s of %s)" % (VERBATIM[self.op], self.linstr(ladd(l, b[1], -1)), self.linstr(self.given(st))), what="%s: complete or up to the end of the room" % self.op)

    def given(self, st):
        if self.op == "buffer": return [a[1] for a in self.argv if a[0] == "L"][0]
        return st.auto[2][1] if st.auto[2] is not None else None

    def complete(self, st):
        """all of the given text is written, or the record is full"""
        n = self.given(st); l = self.cur(st); b = st.auto[0]
        if n is None or l is None or b is None: return False
        ge = lambda x, y: self.prove_ge(st, ladd(x, y, -1))
        return ge(l, lc(self.SIZE)) or ge(l, ladd(b[1], n)) or ge(lc(0), n) or self.isnull(st)

    def on_branch(self, st, ins, cond, taken):
        if self.op in VERBATIM and st.auto[3] is None and self.complete(st): st.auto = st.auto[:3] + ("complete",)

    def isnull(self, st):
        p = [a for a in self.argv if a[0] == "P"]
        return len(p) > 1 and self.decide(st, ("eq", self.plin(st, p[1]))) is True


def run(res, config):
    m = ctx.module(config, expand=STREAM)
    memo = {}
    roots = [f for f in m.fns_rx(r"^vroot_(ls_|use_format)")] + [f for f in m.fns_rx(r"^FNLog::LogStream::LogStream$") if len(f.args) > 4]
    res.need(len([f for f in roots if f.name.startswith("vroot_ls_")]), "stream operations", 10)
    tot = {}
    for f in roots:
        e = Append(m, res, re.sub(r"^vroot_(ls_)?", "", f.name).split("::")[-1], memo); e.run(f); res.fns.add(f.name)
        for k, n in e.k.items(): tot[k] = tot.get(k, 0) + n
    for k in ("text writes", "formatters", "formatted prints", "ends of operations", "given texts"): res.need(tot.get(k, 0), k)
