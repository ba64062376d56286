"""Parts shared by the rules: field paths, the fn-log field model, a base engine."""
import functools, re
from absint import *
from ir import AnalysisError

CONFIG_RX = re.compile(r"^(Channel|Device)\.(config_fields_|in_type_|out_type_|device_id_|channel_id_|channel_type_|device_size_|virtual_device_id_|out_file_|out_path_)$"
                       r"|^SHMLogger\.(channel_size_|shm_id_|shm_size_)$|^Logger\.(shm_|name_|name_len_|desc_|desc_len_|hot_update_|shm_key_)$")
RECORD_RX = re.compile(r"^LogData\.(?!data_mark_)")
RING_IDX = ("RingBuffer.write_idx_", "RingBuffer.hold_idx_", "RingBuffer.read_idx_", "RingBuffer.proc_idx_")
MARK = "LogData.data_mark_"
STATES = ("Channel.channel_state_", "Logger.logger_state_")


@functools.lru_cache(maxsize=1 << 18)
def parse(steps):
    """[(Struct.field, [index lins])] of an access path or a memory key"""
    out = []
    for s in steps:
        if s[0] == "f":
            if s[1].startswith("std::") or s[2] in ("", "_M_i", "_M_elems", "_M_base"): continue
            out.append((s[1].split("::")[-1] + "." + s[2], []))
        elif s[0] == "x":
            if not out: out.append(("", []))
            out[-1][1].append((s[1], s[2]))
    return out


def kcls(key):
    p = parse(key[1])
    return p[-1][0] if p else ""


def index_of(path, field, pos=0):
    """index lin applied to `field` on an access path, 0 when it was dropped; None when the field is absent"""
    for f, ix in path:
        if f == field:
            if len(ix) > pos: return ix[pos][0]
            return ZERO
    return None


def has(path, field):
    return any(f == field for f, _ in path)


def ppath(ptr):
    return parse(ptr[2]) if ptr[0] == "P" else []


class Base(Engine):
    """fn-log aware engine: configuration fields and the record being handled are not changed by calls
    (another thread may change configuration at any time; one decision is taken on one reading of it)"""
    keep_rx = CONFIG_RX
    keep_record = True
    volatile_rx = None

    def volatile(self, cls):
        return bool(self.volatile_rx and self.volatile_rx.search(cls))

    # ---- sizes of the fixed arrays, and what is established about numbers that index them
    @property
    def NDEV(self): return self.m.field_size("FNLog::Channel", "devices_") // self.m.struct("FNLog::Device")["size"]
    @property
    def NCHAN(self): return self.m.field_size("FNLog::SHMLogger", "channels_") // self.m.struct("FNLog::Channel")["size"]
    sizes_known = False     # the counts of channels and devices lie within their arrays (established by the parser and loader: C13, C17)

    def sym_range(self, st, cls, ins):
        if self.sizes_known:
            if cls == "Channel.device_size_": return (0, self.NDEV)
            if cls == "SHMLogger.channel_size_": return (0, self.NCHAN)
        return super().sym_range(st, cls, ins)

    def bound_arg(self, st, i, lo, hi):
        """an integer argument established by the callers to lie within lo..hi"""
        a = self.argv[i]
        if a[0] == "L" and len(a[1][1]) == 1: self.ibnd[a[1][1][0][0]] = (lo, hi)

    def call_preserves(self, st, ins, name, key):
        c = kcls(key)
        if self.keep_rx and self.keep_rx.match(c): return True
        if self.keep_record and RECORD_RX.match(c): return True
        return False

    def stable_atomic(self, cls):
        return bool(self.keep_rx and self.keep_rx.match(cls))

    ids_match = True    # a device / channel stores its own position (established by the parser and by hot update)

    def load_mem(self, st, ins, ptr):
        if self.ids_match and ptr[0] == "P" and bits_of(ins.ty) == 32:
            c = self.cls(ptr)
            if c in ("Device.device_id_", "Channel.channel_id_"):
                ix = index_of(ppath(ptr), "Channel.devices_" if c[0] == "D" else "SHMLogger.channels_")
                if ix is not None and self.memkey(ptr) not in st.mem: return ("L", ix)
        if "ord" in ins.x and ptr[0] == "P" and self.stable_atomic(self.cls(ptr)):
            v = st.mem.get(self.memkey(ptr))
            if v is not None: return self.coerce(st, v, ins.ty, ins)
            v = super().load_mem(st, ins, ptr)
            st.mem[self.memkey(ptr)] = v
            return v
        v = super().load_mem(st, ins, ptr)
        if "ord" in ins.x and ptr[0] == "P" and self.cls(ptr) in STATES: st.mem[self.memkey(ptr)] = v    # read anew each time: the last reading is what is known
        return v

    # ---- copying by the standard library
    def std_copy(self, st, ins, name, args):
        """std::copy, copy_n and fill_n over bytes: what the copying intrinsics do"""
        q = re.search(r"(?:^| )std::(copy|copy_n|fill_n)<[^>]*\bchar\b", name)
        if not q or len(args) != 3: return None
        to = args[0] if q.group(1) == "fill_n" else args[2]
        n = None if q.group(1) == "copy" else self.lin(st, args[1])
        if n is None and args[0][0] == "P" and args[1][0] == "P" and args[0][1] == args[1][1]:
            d = [ZERO, ZERO]
            for i in (0, 1):
                for x in args[i][2]: d[i] = ladd(d[i], lc(x[3])) if x[0] == "f" else ladd(d[i], x[1], x[2])
            n = ladd(d[1], d[0], -1)
        if n is None or to[0] != "P": return None
        self.on_access(st, ins, to, n, True)
        if q.group(1) == "fill_n": a = [to, args[2], ("L", n)]
        else:
            a = [to, args[0], ("L", n)]
            self.on_access(st, ins, args[0], n, False); self.on_memop(st, ins, "llvm.memcpy", a, n)
        self.mem_effect(st, ins, "llvm.memcpy", a, n)
        return [(st, self.opaque(st, ins, "end") if ins.ty != "void" else None)]

    def std_call(self, st, ins, name, args):
        r = self.std_copy(st, ins, name, args)
        return r if r is not None else super().std_call(st, ins, name, args)

    # ---- lengths of std::string objects
    def slen(self, a):
        """the cell that holds the length of the string object a leads to"""
        return (a[1], self.memkey(a)[1] + (("f", "std", "length"),)) if a[0] == "P" else None

    def string_call(self, st, ins, name, args):
        if not (name.startswith("std::") and "basic_string" in name and args and args[0][0] == "P"): return None
        meth = name.split("[abi")[0].rsplit("::", 1)[-1]
        k = self.slen(args[0])
        if meth == "basic_string" and len(args) >= 2 and args[1][0] == "P":
            g = self.m.globals.get(args[1][1][1]) if args[1][1][0] == "g" else None
            st.mem.pop(k, None)
            if g and "init" in g and g["init"][0] == "str" and not args[1][2]:
                st.mem[k] = ("L", lc(self.cstr_len(g["init"][1])))
            elif self.slen(args[1]) in st.mem: st.mem[k] = st.mem[self.slen(args[1])]
            return [(st, None)]
        if meth == "substr" and len(args) >= 4:
            h = self.hi(st, self.uns(st, self.lin(st, args[3]), 64, ins))
            st.mem[k] = ("L", ls(self.fresh(st, "strlen", None, ins, 0, h)))
            return [(st, None)]
        if meth == "operator=" and len(args) == 2 and self.slen(args[1]) in st.mem:
            st.mem[k] = st.mem[self.slen(args[1])]
            return [(st, args[0])]
        if meth in ("length", "size") and k in st.mem: return [(st, st.mem[k])]
        if meth in ("c_str", "data", "~basic_string", "empty"): return [(st, None)]
        st.mem.pop(k, None)
        if meth in ("length", "size"):
            v = ("L", ls(self.fresh(st, "strlen", None, ins, 0, 1 << 62))); st.mem[k] = v
            return [(st, v)]
        return None

    @staticmethod
    def cstr_len(hexbytes):
        for i in range(0, len(hexbytes), 2):
            if hexbytes[i:i + 2] == "00": return i // 2
        return len(hexbytes) // 2

    def memlin(self, st, cls, pred=None):
        """integer value currently known for a field: the lin of the first tracked cell of that class accepted by pred(path)"""
        for k, v in st.mem.items():
            if kcls(k) == cls:
                p = parse(k[1])
                if pred is None or pred(p):
                    if v[0] == "L": return v[1]
                    if v[0] == "P": return self.plin(st, v)
                    if v[0] in ("C", "B"): return self.lin(st, v)
        return None

    def same(self, st, a, b):
        return a == b or self.decide(st, ("eq", ladd(a, b, -1))) is True

    def differ(self, st, a, b):
        return self.decide(st, ("eq", ladd(a, b, -1))) is False

    LEN = 0     # slots of a queue
    def phi_value(self, st, fn, x, v):
        """i + 1 unless that is the ring's length, then 0: the remainder (i + 1) % length"""
        if not self.LEN or v[0] != "L" or x.ty not in ("i32", "i64"): return v
        src = x.x.get("_succ", 0)
        if src == 0:
            src = None
            zero = any(w[0] == "c" and w[1] == "0" for _, w in x.x["inc"])
            adds = [fn.inst[w[1]] for _, w in x.x["inc"] if w[0] == "i" and w[1] in fn.inst and fn.inst[w[1]].op == "add"]
            if zero and len(x.x["inc"]) == 2 and len(adds) == 1 and adds[0].a[1][0] == "c" and adds[0].a[1][1] == "1" and x.id not in {i.id for h in fn.headers for i in fn.blocks[h]}: src = adds[0].a[0]
            x.x["_succ"] = src
        if src is None: return v
        e = self.val(st, src)
        if e[0] != "L" or self.lo(st, e[1]) < 0: return v
        e1 = ladd(e[1], lc(1))
        if isconst(v[1]) and v[1][0] == 0:
            if self.lo(st, e1) != self.LEN or self.hi(st, e1) != self.LEN: return v
        elif not (self.same(st, v[1], e1) and self.prove_ge(st, ladd(lc(self.LEN - 1), e1, -1))): return v
        return self.defd(st, x, ("rem", e1, self.LEN), 0, self.LEN - 1)

    def isnext(self, st, e, n):
        """n is known to be the slot after e"""
        d = self.defof(st, n)
        if d and d[0] == "rem" and d[2] == self.LEN and self.same(st, d[1], ladd(e, lc(1))): return True
        if self.same(st, n, ladd(e, lc(1))) and self.prove_ge(st, ladd(lc(self.LEN - 1), n, -1)): return True
        return self.same(st, n, ZERO) and self.same(st, e, lc(self.LEN - 1))

    # ---- bit tests: does the state know something about bit x of mask?
    def strip(self, st, l):
        """through widenings, narrowings and unsigned readings to the value itself"""
        for _ in range(6):
            if len(l[1]) != 1 or l[0] or l[1][0][1] != 1: return l
            s = l[1][0][0]
            d = st.defs.get(s)
            if d and d[0] == "uns": l = d[1]; continue
            sy = self.syms[s]
            if sy.kind == "uns" and sy.data: l = sy.data; continue
            if sy.kind == "trunc" and sy.data: l = sy.data[0]; continue
            if sy.kind == "sext" and sy.data: l = sy.data; continue
            if sy.kind == "def" and sy.data and sy.data[0] == "and" and isconst(sy.data[2]) and sy.data[2][0] in (63, 0xff, 0xffffffff):
                l = sy.data[1]; continue
            return l
        return l

    def defof(self, st, l):
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
            s = l[1][0][0]
            d = st.defs.get(s) or (self.syms[s].data if self.syms[s].kind in ("def", "div") else None)
            return d if d and None not in d[1:] else None
        return None

    def bit_atoms(self, st, cond):
        """(mask lin, bit lin, is set?) facts a decided condition carries"""
        out = []

        def syms(c):
            if c is None: return
            if c[0] in ("ge", "eq", "ne"):
                for s, _ in c[1][1]: yield s
            elif c[0] in ("and", "or"):
                yield from syms(c[1]); yield from syms(c[2])
        for s in set(syms(cond)) if cond else ():
            z = self.decide(st, ("ne", ls(s)))
            if z is None: continue
            a = self.bit_of(st, s)
            if a: out.append((a[0], a[1], z))
        return out

    def bit_of(self, st, s):
        d = self.defof(st, ls(s))
        if not d or d[0] != "and" or len(d) < 3: 
            sy = self.syms[s]
            if sy.kind in ("trunc", "uns", "sext") or (d and d[0] == "uns"):
                t = self.strip(st, ls(s))
                if t != ls(s) and len(t[1]) == 1 and t[0] == 0: return self.bit_of(st, t[1][0][0])
            return None
        for m, b in ((d[1], d[2]), (d[2], d[1])):
            if not isinstance(b, tuple): continue
            db = self.defof(st, self.strip(st, b))
            if db and db[0] == "shl" and isconst(db[1]) and db[1][0] == 1:
                return (self.strip(st, m), self.strip(st, db[2]))
            if isconst(b) and b[0] == 1:
                dm = self.defof(st, self.strip(st, m))
                if dm and dm[0] in ("lshr", "ashr"):
                    return (self.strip(st, dm[1]), self.strip(st, dm[2]))
        return None


def loc(ins):
    return ins.where()
