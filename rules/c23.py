"""C23: every error code has a description."""
import ctx
from common import *

EXPLANATION = ("For every enumerator of the error enumerations, the text DebugErrno builds is derived by abstract interpretation with that code as argument; it must not be empty and must differ from what is built for a number that is no code. "
               "The numbers returned by the calls that report errors are collected through merges, local variables and calls: each constant must be one of the described codes.")
RULE = "for every code c: text(c) non-empty and != text(no code); every constant returned as an error is a code"
ASSUMPTIONS = []
ENUMS = ("ErrNo", "ParseErrorCode")


class Text(Base):
    loop_unroll = 80
    max_disjuncts = 80
    def __init__(self, m): super().__init__(m); self.out = set()
    def setup(self, st): st.auto = ()
    def key(self, st): return st.auto
    def literal(self, a):
        if a[0] != "P" or a[1][0] != "g": return None
        g = self.m.globals.get(a[1][1])
        if g and "init" in g and g["init"][0] == "str": return bytes.fromhex(g["init"][1]).split(b"\0")[0].decode("latin1")
        return None
    def on_call(self, st, ins, name, args):
        for a in args[1:]:
            t = self.literal(a)
            if t is not None and "snprintf" not in name: st.auto = st.auto + (t,)
        if "basic_string" in name and "~" not in name and len(args) > 1 and self.literal(args[1]) is None and args[1][0] != "P": st.auto = st.auto + (None,)
        return None
    def on_ret(self, st, ins, v): self.out.add(st.auto)


def returned(m, fns):
    """constants that reach the integer results of the functions, through merges, local variables and the results
    of other functions of the project: {function: {constant: where}}"""
    out = {}; work = list(fns); seen = set()
    while work:
        f = work.pop()
        if f.key in seen or not f.blocks: continue
        seen.add(f.key); got = out.setdefault(f, {}); done = set()
        vals = [(x.a[0], x) for x in f.insts() if x.op == "ret" and x.a]
        while vals:
            v, at = vals.pop()
            if v[0] == "c":
                n = int(v[1])
                got.setdefault(n - (1 << v[2]) if n >= 1 << (v[2] - 1) else n, at.where())
            elif v[0] == "i" and v[1] not in done:
                done.add(v[1]); x = f.inst[v[1]]
                if x.op == "phi": vals += [(w, f.blocks[b][-1]) for b, w in x.x["inc"]]
                elif x.op == "select": vals += [(w, x) for w in x.a[1:]]
                elif x.op in ("sext", "zext", "trunc", "freeze"): vals.append((x.a[0], x))
                elif x.op in ("call", "invoke"): work += [g for g in m.byname.get(x.callee, []) if g.proj]
                elif x.op == "load" and x.a[0][0] == "i" and f.inst[x.a[0][1]].op == "alloca":
                    vals += [(y.a[0], y) for y in f.insts() if y.op == "store" and y.a[1] == x.a[0]]
    return out


KINDS = (r"^E_(SHM|VERSION_MISMATCH)", r"^E_(DISABLE_HOTUPDATE|NO_CONFIG_PATH|CONFIG_NO_CHANGE|OUT_RINGBUFFER)$", r"^PEC_ILLEGAL_VAR_", r"^PEC_ILLEGAL_ADDR_", r"^PEC_UNDEFINED_")


def kind(n):
    """codes of one kind may share a text"""
    for k in KINDS:
        if re.search(k, n): return k
    return n


CALLS = r"^(FNLog::(LoadSharedMemory|InitFromYMAL(File)?|HotUpdateLogger|(LoadAndStart|ParseAndStart|FastStart)\w*|ParseLogger|ParseChannel|ParseDevice)|vroot_start|vroot_stop)$"


def run(res, config):
    m = ctx.module(config, expand=("^FNLog::DebugErrno$",))
    f = m.fn("vroot_errno"); res.fns.add("FNLog::DebugErrno")
    codes = {}
    for e in ENUMS:
        for n, v in m.enum_type(e).items():
            if not re.search(r"_(ERRNO_)?MAX$", n): codes.setdefault(v, n)
    res.need(len(codes), "error codes", 10)
    def text(v):
        e = Text(m); e.run(f, args=[("P", ("arg", 0), ()), ("L", lc(v))]); return e.out
    other = text(min(codes) - 12345) | text(max(codes) + 12345)
    res.check(len(other) == 1, "unknown", f.name, "numbers that are no code have no single text")
    texts = {}
    for v, n in sorted(codes.items()):
        t = text(v)
        if any(None in x for x in t): raise AnalysisError("the text of %s is not built from literals" % n)
        res.check(bool(t) and not (t & other) and all("".join(x) for x in t), "text/" + n, f.name, "error code %s (%d) is described by no text of its own: %s" % (n, v, sorted(t)), what="text of " + n)
        texts[n] = t
    for a in sorted(texts):
        for b in sorted(texts):
            if a < b and kind(a) != kind(b):
                res.check(not (texts[a] & texts[b]), "same/%s/%s" % (a, b), f.name, "error codes %s and %s, which are of different kinds, are described by the same text %s" % (a, b, sorted(texts[a] & texts[b])), what="texts of %s and %s" % (a, b))
    m = ctx.module(config)
    n = 0
    for g, vals in sorted(returned(m, m.fns_rx(CALLS)).items(), key=lambda x: x[0].name):
        res.fns.add(g.name)
        for v, where in sorted(vals.items()):
            n += 1
            res.check(v in codes, "returned/%s/%d" % (g.name.split("::")[-1], v), where, "%s returns %d, which is no error code: it has no description" % (g.name, v), what="%s returns %s" % (g.name.split("::")[-1], codes.get(v)))
    res.need(n, "returned constants", 15)
