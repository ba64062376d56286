"""C15: each configuration key sets its own field to the value given."""
import ctx
from common import *

EXPLANATION = ("Decision-table extraction. (1) Every documented key is led through the key lookup, and every documented word through the word converters, by constant propagation of its letters; the numbers they return are the table's rows. "
               "(2) Path-sensitive abstract interpretation of the three section parsers, with the lexer's result split into one case per documented key: every store into the parse result is compared with the one field (and conversion of the line's own value) that key stands for; "
               "no line of a section ends without its field set, and no documented key is refused but for an output kind, address or sequence that is invalid. (3) The number, text, bit list and address converters are followed from the value's text to what they return.")
RULE = "key k of section s => exactly field T[s][k] := conversion C[s][k](value begin, value end) before the next line; sections are numbered by position"
ASSUMPTIONS = ["the parsers stay within the text they are given (C13)", "the lexer delimits key and value as they are written (its bounds: C13)", "the C library's number conversions convert the digits they are given"]

NUM64 = ("atoll", "atol", "strtoll", "strtol", "FNLog::ParseNumber")
NUMU64 = ("strtoull", "strtoul", "FNLog::ParseNumber")


def F(e): return ("cfg", e)
FILTER = {
    "priority": ("PRIORITY", "FNLog::ParsePriority"), "category": ("CATEGORY", "num"), "category_extend": ("CATEGORY_EXTEND", "num"),
    "category_wlist": ("CATEGORY_MASK", "FNLog::ParseBitArray"), "category_blist": ("CATEGORY_MASK", "~FNLog::ParseBitArray"), "category_wmask": ("CATEGORY_MASK", "mask"), "category_bmask": ("CATEGORY_MASK", "~mask"),
    "identify": ("IDENTIFY", "num"), "identify_extend": ("IDENTIFY_EXTEND", "num"),
    "identify_wlist": ("IDENTIFY_MASK", "FNLog::ParseBitArray"), "identify_blist": ("IDENTIFY_MASK", "~FNLog::ParseBitArray"), "identify_wmask": ("IDENTIFY_MASK", "mask"), "identify_bmask": ("IDENTIFY_MASK", "~mask"),
}
DEVICE = {k: (("Device.config_fields_", "DEVICE_CFG_" + f), c) for k, (f, c) in FILTER.items()}
DEVICE.update({
    "disable": (("Device.config_fields_", "DEVICE_CFG_ABLE"), "!FNLog::ParseBool"), "out_type": (("Device.out_type_", None), "FNLog::ParseOutType"), "in_type": (("Device.in_type_", None), "FNLog::ParseInType"),
    "udp_addr": (("Device.config_fields_", "DEVICE_CFG_UDP_IP", "DEVICE_CFG_UDP_PORT"), "FNLog::ParseAddres"), "path": (("Device.out_path_", None), "text"), "file": (("Device.out_file_", None), "text"),
    "rollback": (("Device.config_fields_", "DEVICE_CFG_FILE_ROLLBACK"), "num"), "limit_size": (("Device.config_fields_", "DEVICE_CFG_FILE_LIMIT_SIZE"), "1000000*num"),
    "rolldaily": (("Device.config_fields_", "DEVICE_CFG_FILE_ROLLDAILY"), "FNLog::ParseBool"), "rollhourly": (("Device.config_fields_", "DEVICE_CFG_FILE_ROLLHOURLY"), "FNLog::ParseBool"),
    "stuff_up": (("Device.config_fields_", "DEVICE_CFG_FILE_STUFF_UP"), "FNLog::ParseBool")})
CHANNEL = {k: (("Channel.config_fields_", "CHANNEL_CFG_" + f), c) for k, (f, c) in FILTER.items()}
CHANNEL.update({"sync": (("Channel.channel_type_", None), "FNLog::ParseChannelType"), "device": (None, "section")})
GLOBAL = {"hot_update": (("LexState.hot_update_", None), "FNLog::ParseBool"), "shm_key": (("LexState.shm_key_", None), "num"), "logger_name": (("LexState.name_", None), "text"), "logger_desc": (("LexState.desc_", None), "text"),
          "channel": (None, "section"), "define": (None, "FNLog::PredefinedMacro"), "def": (None, "FNLog::PredefinedMacro"), "var": (None, "FNLog::PredefinedVar")}
SECTIONS = (("FNLog::ParseDevice", DEVICE), ("FNLog::ParseChannel", CHANNEL), ("FNLog::ParseLogger", GLOBAL))
REFUSABLE = ("out_type", "udp_addr", "device", "channel", "define", "def", "var")
WORDS = {
    "FNLog::ParsePriority": {w: "PRIORITY_" + w.upper() for w in ("trace", "debug", "info", "warn", "error", "alarm", "fatal")},
    "FNLog::ParseBool": {"true": 1, "false": 0, "TRUE": 1, "FALSE": 0},
    "FNLog::ParseChannelType": {"async": "CHANNEL_ASYNC", "sync": "CHANNEL_SYNC", "ASYNC": "CHANNEL_ASYNC", "SYNC": "CHANNEL_SYNC"},
    "FNLog::ParseInType": {"udp": "DEVICE_IN_UDP"},
    "FNLog::ParseOutType": {"null": "DEVICE_OUT_NULL", "file": "DEVICE_OUT_FILE", "udp": "DEVICE_OUT_UDP", "screen": "DEVICE_OUT_SCREEN", "virtual": "DEVICE_OUT_VIRTUAL", "empty": "DEVICE_OUT_EMPTY"},
}


class Word(Base):
    """constant propagation of one word through a function that looks at begin .. end"""
    loop_unroll = 60; max_disjuncts = 60; ids_match = False
    def __init__(self, m): super().__init__(m); self.out = set()
    def setup(self, st): st.auto = ()
    def offset(self, p):
        if p[0] != "P" or p[1] != ("arg", 0): return None
        l = ladd(self.plin(None, p), self.plin(None, ("P", p[1], ())), -1)
        return l[0] if isconst(l) else None
    def at(self, p, i=0):
        """the character i bytes after p, None if unknown"""
        if p[0] == "P" and p[1][0] == "g":
            q = self.byte_at(p, i); v = self.const_load(q, "i8") if q else None
            return v[1][0] if v and v[0] == "L" and isconst(v[1]) else None
        o = self.offset(p)
        return None if o is None or not 0 <= o + i <= len(self.word) else (self.word + "\0").encode()[o + i]
    def load_mem(self, st, ins, p):
        if ins.ty == "i8":
            c = self.at(p)
            if c is not None: return ("L", lc(c))
        return super().load_mem(st, ins, p)
    def on_call(self, st, ins, name, args):
        if name in ("memcmp", "strncmp", "strncasecmp") and len(args) == 3:
            n = self.lin(st, args[2])
            if isconst(n):
                for i in range(n[0]):
                    a, b = self.at(args[0], i), self.at(args[1], i)
                    if a is None or b is None: return None
                    if "case" in name: a, b = (ord(chr(x).lower()) for x in (a, b))
                    if a != b: return [(st, ("L", lc(1 if a > b else -1)))]
                    if a == 0 and name != "memcmp": break
                return [(st, ("L", ZERO))]
        if name in ("tolower", "toupper"):
            l = self.lin(st, args[0])
            if isconst(l) and 0 <= l[0] < 128: return [(st, ("L", lc(ord(getattr(chr(l[0]), name[2:])()))))]
        return None
    def on_ret(self, st, ins, v):
        l = self.lin(st, v); self.out.add(l[0] if isconst(l) else None)
    def of(self, f, word):
        self.word = word; self.out = set(); b = ("P", ("arg", 0), ())
        self.run(f, args=[b, self.gep(None, b, [("x", ("c", str(len(word)), 64), 1, -1, "i8")])])
        return self.out


NAME, DONE, VAL = 0, 1, 2
OTHER = "another key"


class Section(Base):
    max_disjuncts = 8; ids_match = False

    def __init__(self, m, res, sect, table, codes):
        super().__init__(m); self.res = res; self.sect = sect; self.T = table; self.codes = codes; self.n = {}
        self.MB = None
    def setup(self, st):
        st.auto = (None, (), None); self.i0 = None
        self.indent = self.argv[2][1] if len(self.argv) > 2 and self.argv[2][0] == "L" else None
    def a(self, st, i): return st.auto[i]
    def seta(self, st, i, v): st.auto = st.auto[:i] + (v,) + st.auto[i + 1:]
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def chk(self, c, key, ins, msg): return self.res.check(c, "%s/%s" % (self.sect.split("::Parse")[-1].lower(), key), ins.where(), msg)
    def call_preserves(self, st, ins, name, key):
        c = kcls(key)
        if name == "FNLog::Lex" or name in [s for s, _ in SECTIONS]: return c in ("LexState.channel_size_", "Channel.channel_id_", "Device.device_id_") or (c == "Channel.device_size_" and name != "FNLog::ParseChannel") or c == "Channel.virtual_device_id_" and name != "FNLog::ParseChannel"
        return c.startswith(("LexState.", "Line.", "Channel.", "Device.")) or super().call_preserves(st, ins, name, key)
    def line(self, st, f):
        for k, v in st.mem.items():
            if kcls(k) == "Line." + f:
                if v[0] == "P": return self.plin(st, v)
                if v[0] == "L": return v[1]
        return None

    # ---- one line after the other
    def blank(self, st):
        b, e = self.line(st, "key_begin_"), self.line(st, "key_end_")
        return b is not None and e is not None and self.same(st, b, e)
    def outer(self, st):
        i = self.line(st, "blank_")
        return self.indent is not None and i is not None and self.prove_ge(st, ladd(self.indent, i, -1))

    def finish(self, st, ins, what):
        """a line that belongs to the section was handled"""
        n = self.a(st, NAME)
        if n is None or n[0] == "?" or self.blank(st): return
        if n == OTHER: self.chk(False, "unknown", ins, "a line with a key that is none of this section's is accepted"); return
        t, c = self.T[n]; need = len(t) - 1 if t else 1
        self.hit("lines handled: " + n)
        ok = len(self.a(st, DONE)) >= need
        if not ok and c == "text": ok = self.misfit(st, t)
        self.chk(ok, "set/" + n, ins, "%s ends without the key '%s' having set its field" % (what, n))
        if n == "device":
            ot = self.memlin(st, "Device.out_type_")
            self.chk("virtual" in self.a(st, DONE) or ot is not None and self.differ(st, ot, lc(self.m.enum("DEVICE_OUT_VIRTUAL"))), "virtual", ins, "a device of output kind virtual is not recorded as its channel's virtual device")

    def misfit(self, st, t):
        b, e = self.line(st, "val_begin_"), self.line(st, "val_end_")
        if b is None or e is None: return False
        n = ladd(e, b, -1); size = self.m.field_size("FNLog::" + t[0].split(".")[0], t[0].split(".")[1])
        return self.prove_ge(st, lneg(n)) or self.prove_ge(st, ladd(n, lc(1 - size)))

    def value(self, st, args):
        """do the arguments name the value of the line at hand?"""
        b, e = self.line(st, "val_begin_"), self.line(st, "val_end_")
        ok = args and args[0][0] == "P" and b is not None and self.same(st, self.plin(st, args[0]), b)
        if len(args) > 1 and args[1][0] == "P" and args[1][1] != ("null",) and args[1][1][0] != "al": ok = ok and e is not None and self.same(st, self.plin(st, args[1]), e)
        return bool(ok)

    def clear(self, st):
        for k in [k for k in st.mem if k[0][0] != "al" and not kcls(k).startswith("LexState.channel_size_") and kcls(k) not in ("Channel.device_size_", "Channel.device_id_")]: st.mem.pop(k)

    def on_call(self, st, ins, name, args):
        if name == "FNLog::Lex":
            self.finish(st, ins, "a line")
            self.clear(st); self.hit("lines read"); out = []
            p = ("P", args[0][1], args[0][2] + (("f", "FNLog::LexState", "line_", *self.off("LexState", "line_")),))
            def case(s, n, k):
                s.auto = (n, (), None)
                b = self.fresh(s, "keyb", None, ins, 4096, 1 << 47); e = self.fresh(s, "keye", None, ins, 4096, 1 << 47)
                for f, sy in (("key_begin_", b), ("key_end_", e)): s.mem[self.memkey(("P", p[1], p[2] + (("f", "FNLog::Line", f, *self.off("Line", f)),)))] = ("P", ("s", sy), ())
                if n != ("?",): self.add_ge(s, ladd(ls(e), ls(b), -1)); self.add_ge(s, ladd(ladd(ls(e), ls(b), -1), lc(-1)))
                else: self.add_ge(s, ladd(ls(b), ls(e), -1)); self.add_ge(s, ladd(ls(e), ls(b), -1))
                for f in ("val_begin_", "val_end_"): s.mem[self.memkey(("P", p[1], p[2] + (("f", "FNLog::Line", f, *self.off("Line", f)),)))] = ("P", ("s", self.fresh(s, "Line." + f, None, ins, 4096, 1 << 47)), ())
                kk = self.memkey(("P", p[1], p[2] + (("f", "FNLog::Line", "key_", *self.off("Line", "key_")),)))
                if k is not None: s.mem[kk] = ("L", lc(k))
                else:
                    sy = self.fresh(s, "key", None, ins, -(1 << 31), (1 << 31) - 1); s.mem[kk] = ("L", ls(sy))
                    if n == OTHER:
                        for c in set(self.codes[x] for x in self.T): self.add_ne(s, ladd(ls(sy), lc(c), -1))
                out.append((s, ("L", ZERO)))
            s = st.copy(); s.auto = (("?",), (), None); out.append((s, ("L", ls(self.fresh(s, "lexerr", None, ins, 1, 1 << 20)))))
            for n in sorted(self.T): case(st.copy(), n, self.codes[n])
            case(st.copy(), OTHER, None); case(st.copy(), ("?",), None)
            return out
        n = self.a(st, NAME)
        want = self.T.get(n, (None, None))[1] if isinstance(n, str) else None
        name = re.sub(r"^__isoc\d+_", "", name)
        if name in NUM64 + NUMU64 or name == "atoi" or name.startswith("FNLog::Parse") and name not in [s for s, _ in SECTIONS] and name not in ("FNLog::ParseString", "FNLog::ParseAddres"):
            self.hit("conversions"); self.chk(self.value(st, args), "value/" + str(n), ins, "%s converts something else than the value of the line at hand" % name)
            if name.startswith("strto"): b = self.lin(st, args[2]); self.chk(isconst(b) and b[0] in (0, 10), "base/" + str(n), ins, "the number is not read by its own notation")
            w = bits_of(ins.ty) or 32
            lo, hi = ((0, 1) if w == 1 else (0, 255) if w == 8 else (-(1 << (w - 1)), (1 << (w - 1)) - 1))
            s = self.fresh(st, "conv", name, ins, lo, hi)
            self.seta(st, VAL, (name, ("lin", ls(s))))
            self.hit("conversions")
            return [(st, ("C", ("ne", ls(s))) if w == 1 else ("L", ls(s)))]
        if name == "FNLog::ParseAddres":
            self.chk(self.value(st, args), "value/" + str(n), ins, "the address is parsed from something else than the value of the line at hand")
            v = []
            for p in args[3:5]:
                s = self.fresh(st, "addr", None, ins, -(1 << 63), (1 << 63) - 1); v.append(("lin", ls(s)))
                if p[0] == "P": self.store_mem(st, p, ("L", ls(s)))
            self.seta(st, VAL, (name,) + tuple(v))
            for p, x in zip(args[3:5], v): self.wrote(st, ins, p, ("L", x[1]), None)
            return [(st, None)]
        if name == "FNLog::ParseString":
            self.chk(self.value(st, args), "value/" + str(n), ins, "a text is taken from something else than the value of the line at hand")
            c = self.cls(args[2]); t = self.T[n][0] if isinstance(n, str) and n in self.T else None
            if self.chk(t is not None and c == t[0] and want == "text", "field/%s/%s" % (n, c), ins, "the key '%s' sets %s" % (n, c)): self.seta(st, DONE, self.a(st, DONE) + (c,))
            if len(args) > 4: st.mem.pop(self.memkey(args[4]), None) if args[4][0] == "P" else None
            return [(st, None)]
        if name in ("FNLog::PredefinedMacro", "FNLog::PredefinedVar"):
            if self.chk(want == name, "field/%s/%s" % (n, name), ins, "the key '%s' is treated by %s" % (n, name)): self.seta(st, DONE, ("done",))
            return None
        if name in [s for s, _ in SECTIONS]: self.enter(st, ins, name, args)
        return None

    def enter(self, st, ins, name, args):
        """a section is read: into the entry its number says, which is the next one"""
        n = self.a(st, NAME); what, size, idf = ("Device", "Channel.device_size_", "Device.device_id_") if name.endswith("Device") else ("Channel", "LexState.channel_size_", "Channel.channel_id_")
        if not self.chk(n == what.lower(), "section/" + what, ins, "a %s section is read for the key '%s'" % (what.lower(), n)): return
        ix = index_of(ppath(args[1]), "Channel.devices_" if what == "Device" else "LexState.channels_")
        v = self.a(st, VAL); num = v[1][1] if v and v[0] in NUM64 + ("atoi",) else None
        ident = self.memlin(st, idf); now = self.memlin(st, size)
        self.chk(ix is not None and num is not None and self.same(st, ix, num), "section/number", ins, "a %s section is not read into the entry its number says" % what.lower())
        self.chk(ident is not None and ix is not None and self.same(st, ident, ix), "section/id", ins, "a %s's own number is not its position" % what.lower())
        self.chk(now is not None and ix is not None and self.same(st, now, ladd(ix, lc(1))), "section/sequence", ins, "the number of %ss is not the number of sections read: an entry is skipped or overwritten" % what.lower())
        b = self.line(st, "blank_"); i = self.lin(st, args[2])
        self.chk(b is not None and self.same(st, b, i), "section/indent", ins, "a %s section is delimited by something else than the indentation of its own head" % what.lower())
        self.seta(st, DONE, ("section",)); self.hit("sections entered")

    def off(self, s, f):
        q = self.m.structs["FNLog::" + s]
        for z in q["fields"]:
            if z[0] == f: return z[1], z[2]
        raise AnalysisError("anchor vanished: %s.%s" % (s, f))

    # ---- stores
    def on_store(self, st, ins, p, v): self.wrote(st, ins, p, v, None)
    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "store": self.wrote(st, ins, p, vals[0], None)
        elif kind != "load": self.wrote(st, ins, p, None, None)

    def wrote(self, st, ins, p, v, copy):
        if p[0] != "P" or p[1][0] == "al": return
        pp = ppath(p)
        if not pp: return
        c = pp[-1][0]; n = self.a(st, NAME)
        if c.startswith("Line.") or c in ("LexState.line_no_", "LexState.current_", "LexState.line_"): return
        l = None if v is None else (v[1] if v[0] == "L" else self.lin(st, v) if v[0] in ("B", "C") else None)
        if n is None: return                        # before the first line: defaults (C22)
        self.hit("stores")
        if n in ("device", "channel") and self.T.get(n):
            inside = has(pp, "Channel.devices_" if n == "device" else "LexState.channels_")
            if inside and "section" not in self.a(st, DONE): return      # the entry before its section is read (C22; its number: enter)
            if n == "device" and c == "Channel.device_size_" or n == "channel" and c == "LexState.channel_size_":
                self.chk("section" not in self.a(st, DONE), "field/%s/%s" % (n, c), ins, "the number of entries changes after a section was read"); return
            if n == "device" and c == "Channel.virtual_device_id_":
                ot = self.memlin(st, "Device.out_type_"); now = self.memlin(st, "Channel.device_size_")
                self.chk(l is not None and ot is not None and self.same(st, ot, lc(self.m.enum("DEVICE_OUT_VIRTUAL"))) and now is not None and self.same(st, l, ladd(now, lc(-1))), "virtual", ins, "the channel's virtual device is set to one that is not of output kind virtual")
                self.seta(st, DONE, self.a(st, DONE) + ("virtual",)); return
        t, conv = self.T.get(n, (None, None)) if isinstance(n, str) else (None, None)
        ix = index_of(pp, c) if c.endswith("config_fields_") else None
        field = next((e for e in (t or ())[1:] if e is None or ix is not None and self.same(st, ix, lc(self.m.enum(e)))), "") if t and c == t[0] else ""
        if t and conv == "text" and c == t[0].replace("_", "_len_", 0) : pass
        if conv == "text" and c in ("LexState.name_len_", "LexState.desc_len_") and c[:-5] == t[0][:-1]: return
        if not self.chk(t is not None and c == t[0] and field != "", "field/%s/%s" % (n, c), ins, "a line with the key '%s' sets %s%s" % (n, c, "" if ix is None else "[%s]" % self.linstr(ix))): return
        if conv == "text": self.text(st, ins, p, v, copy, c); return
        x = self.a(st, VAL)
        ok = l is not None and x is not None and self.matches(st, conv, x, l, t[1:].index(field))
        self.chk(ok, "conversion/" + n, ins, "the key '%s' does not set its field to the value as written (%s)" % (n, "converted by %s" % x[0] if x else "nothing was converted"))
        self.seta(st, DONE, tuple(sorted(set(self.a(st, DONE)) | {field or c})))

    def text(self, st, ins, p, v, copy, c):
        b, e = self.line(st, "val_begin_"), self.line(st, "val_end_"); n = None if b is None or e is None else ladd(e, b, -1)
        ix = index_of(ppath(p), c) or ZERO; d = self.a(st, DONE)
        if copy:
            ok = n is not None and self.same(st, ix, ZERO) and copy[0][0] == "P" and self.same(st, self.plin(st, copy[0]), b) and self.same(st, copy[1], n)
            self.chk(ok, "text/" + c, ins, "what is copied to %s is not the whole value of the line" % c)
            self.seta(st, DONE, tuple(d) + ("copy",)) if "copy" not in d else None
        else:
            ok = n is not None and v is not None and self.same(st, self.lin(st, v), ZERO) and self.same(st, ix, n)
            self.chk(ok, "text/" + c, ins, "%s is not ended right after the value" % c)
            self.seta(st, DONE, tuple(d) + ("end",))
        d = self.a(st, DONE)
        if "copy" not in d or "end" not in d: self.seta(st, DONE, tuple(x for x in d if x in ("copy", "end")))

    def on_memop(self, st, ins, name, args, n):
        if args[0][0] == "P" and args[0][1][0] != "al": self.wrote(st, ins, self.descend(args[0], 1) if "memset" not in name else args[0], None, (args[1], n) if "memset" not in name else None)

    def matches(self, st, conv, x, l, i):
        f, v = x[0], [y[1] for y in x[1:]]
        neg = conv[0] == "~"; no = conv[0] == "!"; k = 1000000 if conv.startswith("1000000*") else 1
        base = conv.lstrip("~!") if k == 1 else conv[8:]
        if base == "num" and f not in NUM64 or base == "mask" and f not in NUMU64 or base not in ("num", "mask") and f != base: return False
        y = v[i] if i < len(v) else v[0]
        if no: return self.same(st, ladd(l, y), lc(1)) or self.flips(st, l, y)
        if neg:
            d = self.defof(st, l)
            return bool(d and d[0] == "not" and self.same(st, d[1], y)) or self.same(st, l, ladd(lneg(y), lc(-1)))
        if k > 1:
            z = l
            for _ in range(3):
                if len(z[1]) == 1 and z[0] == 0 and self.syms[z[1][0][0]].kind == "wrap": z = self.syms[z[1][0][0]].data
                if z == lmul(y, k): return True
                if len(z[1]) == 1: z = (z[0], z[1])
            return self.same(st, l, lmul(y, k))
        if base in ("num", "mask"): return self.same(st, l, y) or self.same(st, self.unsigned(st, l), y)       # (nothing narrower)
        return self.same(st, self.strip(st, l), self.strip(st, y))
    def unsigned(self, st, l):
        if len(l[1]) != 1 or l[0] or l[1][0][1] != 1: return l
        d = st.defs.get(l[1][0][0]); sy = self.syms[l[1][0][0]]
        return d[1] if d and d[0] == "uns" else sy.data if sy.kind == "uns" and sy.data else l

    def flips(self, st, l, y):
        for z in (0, 1):
            s = st.copy()
            try:
                r = self.assume(s, ("eq", ladd(y, lc(z), -1)))
            except Infeasible: continue
            if not all(self.same(q, self.relin(q, l), lc(1 - z)) for q in r): return False
        return True
    def relin(self, st, l):
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
            sy = self.syms[l[1][0][0]]
            if sy.kind == "bool" and isinstance(sy.data, tuple):
                d = self.decide(st, sy.data)
                if d is not None: return lc(int(d))
        return l

    def on_ret(self, st, ins, v):
        self.hit("exits"); r = self.lin(st, v); n = self.a(st, NAME)
        if self.differ(st, r, ZERO):
            if n in (None, OTHER, ("?",)) or "section" in self.a(st, DONE): return
            if n in GLOBAL and self.T is GLOBAL and self.a(st, DONE):
                c = self.memlin(st, "LexState.channel_size_")
                if c is not None and self.same(st, c, ZERO): return      # the text ends without a channel
            c = self.T[n][1]
            why = n in ("define", "def", "var") or n in ("device", "channel") and self.unfit(st, n) or n == "out_type" and self.is_(st, "Device.out_type_", "DEVICE_OUT_NULL") or n == "udp_addr" and self.noaddr(st)
            self.chk(bool(why), "refused/" + n, ins, "a line with the key '%s' is refused although nothing is wrong with it" % n)
            return
        if n == ("?",) or n is None or self.outer(st): return
        self.finish(st, ins, "the section")

    def is_(self, st, c, e):
        l = self.memlin(st, c); return l is not None and self.same(st, l, lc(self.m.enum(e)))
    def unfit(self, st, n):
        size = self.memlin(st, "Channel.device_size_" if n == "device" else "LexState.channel_size_"); v = self.a(st, VAL)
        cap = self.NDEV if n == "device" else self.NCHAN
        return size is not None and (self.prove_ge(st, ladd(size, lc(-cap))) or v and v[1] and self.differ(st, v[1][1], size))
    def noaddr(self, st):
        x = self.a(st, VAL)
        return x and x[0] == "FNLog::ParseAddres" and any(self.same(st, y[1], ZERO) for y in x[1:])


class Conv(Base):
    """a converter followed from the text begin .. end (its first two arguments) to its result"""
    max_disjuncts = 8; ids_match = False
    def __init__(self, m, res, name): super().__init__(m); self.res = res; self.name = name; self.n = {}
    def setup(self, st): st.auto = (None, None, None); self.begin, self.end = (self.plin(st, ("P", ("arg", i), ())) for i in (0, 1)); self.len = ladd(self.end, self.begin, -1)
    def a(self, st, i): return st.auto[i]
    def seta(self, st, i, v): st.auto = st.auto[:i] + (v,) + st.auto[i + 1:]
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def chk(self, c, key, ins, msg): return self.res.check(c, "convert/%s/%s" % (self.name.split("::")[-1], key), ins.where(), msg)
    def call_preserves(self, st, ins, name, key): return True
    def may_alias(self, st, a, b): return not (a[0] != b[0] and a[0][0] == b[0][0] == "arg") and super().may_alias(st, a, b)      # results go to objects of their own
    # the copy: (destination root, length, from the text's begin?, to its end?), where it was ended
    def on_memop(self, st, ins, name, args, n):
        if "memset" in name:        # a buffer of zeros ends the copy wherever that ends
            if args[0][0] == "P" and self.offs(args[0]) == ZERO and self.same(st, self.lin(st, args[1]), ZERO): self.seta(st, 0, None); self.seta(st, 1, ("zero", args[0][1], ("lin", self.strip(st, n))))
            return
        ix = self.offs(args[0]); zero = self.a(st, 1)
        if ix == ZERO and args[0][0] == args[1][0] == "P":
            b = self.plin(st, args[1]); n = self.strip(st, n)
            self.seta(st, 0, (args[0][1], ("lin", n), self.same(st, b, self.begin), self.same(st, ladd(b, n), self.end)))
        else: self.seta(st, 0, None)
        fits = zero and zero[0] == "zero" and self.a(st, 0) and zero[1] == args[0][1] and self.prove_ge(st, ladd(ladd(zero[2][1], n, -1), lc(-1)))
        self.seta(st, 1, ("lin", n) if fits else None)
    def offs(self, p): return ladd(self.plin(None, p), self.plin(None, ("P", p[1], ())), -1) if p[0] == "P" else None
    def on_store(self, st, ins, p, v):
        c = self.a(st, 0)
        if c and p[0] == "P" and p[1] == c[0] and self.offs(p) is not None and self.same(st, self.lin(st, v), ZERO): self.seta(st, 1, ("lin", self.strip(st, self.offs(p))))
    def whole(self, st, p, upto_end=True):
        """does p lead to the text, or to an ended copy of it (up to its end)?"""
        if p[0] != "P": return False
        if p[1] == ("arg", 0): return self.same(st, self.plin(st, p), self.begin)
        c, e = self.a(st, 0), self.a(st, 1)
        return bool(c and e and p[1] == c[0] and self.offs(p) == ZERO and self.same(st, e[1], c[1][1]) and c[3])
    def number(self, st, ins, name, args):
        w = bits_of(ins.ty); s = self.fresh(st, "number", name, ins, 0 if "u" in name else -(1 << (w - 1)), (1 << w) - 1 if "u" in name else (1 << (w - 1)) - 1)
        self.hit("number conversions"); return ls(s)
    @staticmethod
    def plain(name): return re.sub(r"^__isoc\d+_", "", name)


class Number(Conv):
    def on_call(self, st, ins, name, args):
        name = self.plain(name)
        if name in NUM64 + NUMU64 + ("atoi",):
            c = self.a(st, 0)
            self.chk(self.whole(st, args[0]) and (args[0][1] == ("arg", 0) or c[2]), "text", ins, "the number is not converted from the whole value")
            self.chk(name.startswith("strto") and self.same(st, self.lin(st, args[2]), ZERO), "base", ins, "the number is not converted by its own notation (decimal, hexadecimal) in 64 bits")
            l = self.number(st, ins, name, args); self.seta(st, 2, ("lin", l))
            return [(st, ("L", l))]
        return None
    def on_ret(self, st, ins, v):
        l = self.lin(st, v); r = self.a(st, 2)
        ok = r and self.same(st, l, r[1]) or self.same(st, l, ZERO) and (self.prove_ge(st, lneg(self.len)) or self.prove_ge(st, ladd(self.len, lc(-21))))
        self.hit("results"); self.chk(bool(ok), "result", ins, "the number returned is not the one converted")


class Text(Conv):
    def setup(self, st): super().setup(st); self.bound_arg(st, 3, 1, 1 << 20); self.room = self.argv[3][1]
    def on_ret(self, st, ins, v):
        l = self.lin(st, v); c, e = self.a(st, 0), self.a(st, 1); n = st.mem.get(self.memkey(("P", ("arg", 4), ())))
        n = self.lin(st, n) if n else None; self.hit("results")
        if self.same(st, l, ZERO): ok = n is not None and self.same(st, n, ZERO) and self.prove_ge(st, lneg(self.len))
        else: ok = c and e and n is not None and c[0] == ("arg", 2) and c[2] and self.same(st, c[1][1], n) and self.same(st, e[1], n) and (self.same(st, n, self.len) or self.same(st, n, ladd(self.room, lc(-1))) and self.prove_ge(st, ladd(self.len, n, -1)))
        self.chk(bool(ok), "result", ins, "the text kept is not the value as far as it fits, ended, with its length")
    def trunc_keeps(self, st, ins, l, w): return self.prove_ge(st, ladd(self.room, l, -1)) and self.prove_ge(st, l)


class Address(Conv):
    rel_join = True; max_disjuncts = 40; header_disjuncts = 1
    def setup(self, st): super().setup(st); st.auto = (None, None, None, None, None, None, None, False)
    # what lies before the port's digits
    def on_load(self, st, ins, p, v):
        if ins.ty != "i8" or v[0] != "L" or p[0] != "P": return
        at = self.plin(st, p)
        if self.a(st, 6) is None or not self.same(st, at, self.a(st, 6)[1]):
            self.skipped(st, ins); self.seta(st, 6, ("lin", at)); self.seta(st, 7, False)
        self.seta(st, 5, ("lin", v[1]))
        self.digit(st)
    def on_branch(self, st, ins, cond, taken): self.digit(st)
    def digit(self, st):
        c = self.a(st, 5)
        if c and (self.prove_ge(st, ladd(lc(48), c[1], -1)) or self.prove_ge(st, ladd(c[1], lc(-58)))): self.seta(st, 7, True)
    def skipped(self, st, ins):
        if self.a(st, 6) is not None: self.chk(self.a(st, 7), "port/digit", ins, "a digit of the port is left out")
    def on_memop(self, st, ins, name, args, n):
        super().on_memop(st, ins, name, args, n)
        if self.a(st, 0) and args[1][0] == "P" and (self.a(st, 6) is None or not self.same(st, self.plin(st, args[1]), self.a(st, 6)[1])): self.skipped(st, ins)
    def on_call(self, st, ins, name, args):
        name = self.plain(name)
        if name == "FNLog::ParseAddresIP":
            self.chk(self.same(st, self.plin(st, args[0]), self.begin) and self.same(st, self.plin(st, args[1]), self.end), "ip/text", ins, "the address is not parsed from the whole value")
            s = self.fresh(st, "ip", None, ins, -(1 << 63), (1 << 63) - 1); q = self.fresh(st, "ipend", None, ins, 4096, 1 << 47)
            self.add_ge(st, ladd(ls(q), self.begin, -1)); self.add_ge(st, ladd(self.end, ls(q), -1))
            self.seta(st, 2, ("lin", ls(s))); return [(st, ("A", (("L", ls(s)), ("P", ("s", q), ()))))]
        if name in NUM64 + NUMU64 + ("atoi",):
            self.chk(self.whole(st, args[0]), "port/text", ins, "the port is not converted from the rest of the value")
            l = self.number(st, ins, name, args); self.seta(st, 3, ("lin", l)); return [(st, ("L", l))]
        if "bswap" in name or name == "htons":
            x = self.a(st, 3); l = self.lin(st, args[0]); y = self.strip(st, l)
            ok = x and self.same(st, y, x[1])
            s = self.fresh(st, "netorder", None, ins, 0, 65535)
            if ok: self.seta(st, 4, ("lin", ls(s)))
            return [(st, ("L", ls(s)))]
        return None
    def on_ret(self, st, ins, v):
        ip, port = (st.mem.get(self.memkey(("P", ("arg", i), ()))) for i in (3, 4))
        if not self.chk(ip is not None and port is not None, "set", ins, "the address or port is left undefined"): return
        ip, port = self.lin(st, ip), self.lin(st, port)
        if self.same(st, ip, ZERO) and self.same(st, port, ZERO): return
        x, y = self.a(st, 2), self.a(st, 4); self.hit("results")
        self.chk(bool(x and y and self.same(st, ip, x[1]) and self.same(st, port, y[1])), "result", ins, "the address is not the one parsed, or the port is not the number behind it in network order")


FIRST, LAST, DASH, CUR, ACC, CHAR, AT, DIR = range(8)
class Bits(Conv):
    """numbers and ranges of numbers -> the bits of exactly these numbers that exist in a mask of 64"""
    max_disjuncts = 60; header_disjuncts = 1; rel_join = True
    def size(self, st, x): return None if x is None else "64.." if self.ge64(st, x) else "..63" if self.prove_ge(st, ladd(lc(63), x, -1)) else "?"
    def key(self, st):
        f, l, c = self.v(st, FIRST), self.v(st, LAST), self.v(st, CUR)
        o = None if f is None or l is None else (self.prove_ge(st, ladd(l, f, -1)), self.prove_ge(st, ladd(f, l, -1)))
        return (self.size(st, f), self.size(st, l), self.a(st, DASH), c is None, o, self.a(st, CHAR) is None, self.a(st, DIR))
    def setup(self, st): super().setup(st); st.auto = (None, None, False, None, ("lin", ZERO), None, None, None)
    def v(self, st, i): x = self.a(st, i); return x[1] if x else None
    def on_load(self, st, ins, p, v):
        if p[0] == "P" and ins.ty == "i8": self.add_ge(st, ladd(self.end, self.plin(st, p), -1))      # the text is not left: C13
        if ins.ty == "i8" and v[0] == "L": self.seta(st, CHAR, ("lin", v[1])); self.seta(st, AT, ("lin", self.plin(st, p)))
    def on_branch(self, st, ins, cond, taken):
        self.look(st)
        if cond and cond[0] in ("eq", "ge", "ne"):
            k = dict(cond[1][1]).get(self.end[1][0][0])
            if k in (1, -1):        # where in the text is compared with its end
                l = (0, (cond[1] if k == -1 else lneg(cond[1]))[1])
                if self.prove_ge(st, lneg(l)): st.facts.add(lneg(l))      # (kept when paths meet)
                if self.a(st, DASH) and self.prove_ge(st, l): self.seta(st, DASH, None)
    def look(self, st):
        c = self.v(st, CHAR)
        if c is None or self.v(st, FIRST) is None or self.v(st, LAST) is not None: return
        if self.same(st, c, lc(45)) and self.a(st, DASH) is False: self.seta(st, DASH, True)
        if self.same(st, c, lc(44)): self.seta(st, DASH, None)       # the number stands alone
    def ge64(self, st, x): return self.prove_ge(st, ladd(x, lc(-64)))
    def settle(self, st, ins, ranged):
        """the number (or range) read last is represented"""
        f, l, cur = self.v(st, FIRST), self.v(st, LAST), self.v(st, CUR)
        if f is None: return True
        if l is None:
            return bool(not self.a(st, DASH) and (cur is not None and self.same(st, cur, f) or cur is None and self.ge64(st, f)))
        if cur is None: return self.ge64(st, f) and self.ge64(st, l)
        up = self.prove_ge(st, ladd(cur, lc(-63))) or self.prove_ge(st, ladd(cur, f, -1)) and self.prove_ge(st, ladd(cur, l, -1))
        down = self.prove_ge(st, ladd(f, cur, -1)) and self.prove_ge(st, ladd(l, cur, -1))
        return {"up": up, "down": down, "one": True}.get(self.a(st, DIR), False)
    def on_call(self, st, ins, name, args):
        name = self.plain(name)
        if name in NUM64 + NUMU64 + ("atoi",):
            self.look(st)
            self.chk(name != "atoi" , "number", ins, "a bit number that does not fit an int is read as another one")
            ranged = self.v(st, FIRST) is not None and self.v(st, LAST) is None and self.a(st, DASH) and self.v(st, CUR) is None and not self.settle(st, ins, False)
            if ranged: self.hit("ranges")
            else: self.chk(self.settle(st, ins, False), "bits", ins, "a number or range of the list is not (wholly) represented in the mask")
            self.add_ge(st, ladd(self.end, self.plin(st, args[0]), -1))
            w = bits_of(ins.ty); top = (1 << w) - 1 if name.startswith("strtou") else (1 << (w - 1)) - 1; out = []
            self.hit("number conversions")
            for lo, hi in ((0, 63), (64, top)):
                s = st.copy(); x = ls(self.fresh(s, "number", name, ins, lo, hi))
                if ranged: self.seta(s, LAST, ("lin", x))
                else:
                    self.seta(s, FIRST, ("lin", x)); self.seta(s, LAST, None); self.seta(s, DASH, False); self.seta(s, CUR, None); self.seta(s, DIR, None)
                self.seta(s, CHAR, None); out.append((s, ("L", x)))
            return out
        return None
    def step(self, st, ins):
        if ins.op == "shl" and bits_of(ins.ty) == 64:
            x = self.strip(st, self.lin(st, self.val(st, ins.a[1])))
            self.chk(self.prove_ge(st, x) and self.prove_ge(st, ladd(lc(63), x, -1)), "shift", ins, "a bit number outside 0..63 is shifted to")
        if ins.op == "or" and bits_of(ins.ty) == 64:
            a, b = (self.lin(st, self.val(st, v)) for v in ins.a)
            for m, bit in ((a, b), (b, a)):
                d = self.defof(st, bit); x = None
                if d and d[0] == "shl" and isconst(d[1]) and d[1][0] == 1: x = self.strip(st, d[2])
                elif isconst(bit) and bit[0] > 0 and bit[0] & (bit[0] - 1) == 0: x = lc(bit[0].bit_length() - 1)
                if x is None: continue
                self.bit(st, ins, x, m); out = super().step(st, ins)
                for s in out:
                    r = s.env.get(ins.id)
                    if r and r[0] == "L": self.seta(s, ACC, ("lin", r[1]))
                return out
        return super().step(st, ins)
    def bit(self, st, ins, x, m):
        self.hit("bits set"); f, l, cur = self.v(st, FIRST), self.v(st, LAST), self.v(st, CUR)
        self.chk(self.same(st, m, self.v(st, ACC)), "kept", ins, "bits set before are dropped")
        if l is None: ok = f is not None and self.same(st, x, f)
        else:
            below = [self.prove_ge(st, ladd(e, x, -1)) for e in (f, l)]; above = [self.prove_ge(st, ladd(x, e, -1)) for e in (f, l)]
            ok = any(below) and any(above); d = self.a(st, DIR)
            if cur is None:
                low, high = all(below), all(above) or self.prove_ge(st, ladd(x, lc(-63)))
                self.seta(st, DIR, "one" if low and high else "up" if low else "down" if high else None); ok = ok and (low or high)
            else:
                w = "up" if self.same(st, x, ladd(cur, lc(1))) else "down" if self.same(st, x, ladd(cur, lc(-1))) else None
                ok = ok and w is not None and d in (w, "one")
                if d == "one": self.seta(st, DIR, w)
        self.chk(bool(ok), "bit", ins, "a bit is set that the list does not name")
        self.seta(st, CUR, ("lin", x))
    def on_ret(self, st, ins, v):
        self.look(st); l = self.lin(st, v); self.hit("results")
        self.chk(self.settle(st, ins, False), "bits", ins, "a number or range of the list is not (wholly) represented in the mask")
        self.chk(self.same(st, l, self.v(st, ACC)), "result", ins, "what is returned is not the mask that was built")


CONV = (("FNLog::ParseNumber", Number, {"number conversions": 1, "results": 2}), ("FNLog::ParseString", Text, {"results": 2}), ("FNLog::ParseAddres", Address, {"results": 1}), ("FNLog::ParseBitArray", Bits, {"number conversions": 1, "bits set": 1, "ranges": 1, "results": 1}))


def run(res, config):
    m = ctx.module(config)
    look = ctx.module(config)
    w = Word(look); lookup = look.fn("FNLog::ParseReserve"); res.fns.add(lookup.name)
    codes = {}
    for sect, table in SECTIONS:
        for k in table:
            r = w.of(lookup, k)
            res.check(len(r) == 1 and None not in r and 0 not in r, "lookup/" + k, lookup.name, "the documented key '%s' is not recognised (%s)" % (k, sorted(r, key=str)), what="key " + k)
            if len(r) == 1 and None not in r: codes[k] = next(iter(r))
    for sect, table in SECTIONS:
        ks = sorted(table)
        for a in ks:
            for b in ks:
                if a < b and not {a, b} <= {"def", "define"}: res.check(codes.get(a) != codes.get(b) or a not in codes, "lookup/%s/%s" % (a, b), lookup.name, "the keys '%s' and '%s' are taken for the same" % (a, b))
    res.need(len(codes), "documented keys", 30)
    nw = 0
    for f, words in sorted(WORDS.items()):
        g = look.fn(f); res.fns.add(g.name)
        for t, v in sorted(words.items()):
            r = w.of(g, t); nw += 1; v = m.enum(v) if isinstance(v, str) else v
            res.check({x if g.aret != "i1" else abs(x) if x is not None else x for x in r} == {v} if hasattr(g, "aret") else r == {v}, "word/%s/%s" % (f.split("Parse")[-1], t), g.name, "the documented value '%s' is read as %s by %s, not as %s" % (t, sorted(r, key=str), f, v), what="word %s" % t)
    res.need(nw, "documented words", 15)
    for sect, table in SECTIONS:
        if any(k not in codes for k in table): continue
        e = Section(m, res, sect, table, codes); f = m.fn(sect); e.run(f); res.fns.add(f.name)
        for k, n in e.n.items(): res.count(k, n)
        for k in table: res.need(e.n.get("lines handled: " + k, 0), "handled " + k, 1)
    for name, cls, need in CONV:
        e = cls(m, res, name); f = m.fn(name); e.run(f); res.fns.add(f.name)
        for k, n in need.items(): res.need(e.n.get(k, 0), "%s of %s" % (k, name.split("::")[-1]), n)
