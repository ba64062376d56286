"""Abstract interpreter over the expanded IR.

The abstract domain is a product of: linear expressions over symbols for integers and pointers, interval
bounds per symbol, a set of linear inequalities (a small template-free polyhedral domain whose joins keep
the inequalities that hold on both sides), floating-point intervals, symbolic pointers (root + typed
access path), a store map for the memory cells a rule lets it track, and a rule-defined automaton state
(property simulation: states that differ in the automaton are kept apart, states that agree are joined).
It is a may-analysis: every concrete execution is covered by some abstract state, loops by widening.
No concrete input is ever chosen and no solver is called.
"""
import heapq, math, re
from ir import AnalysisError

INF = float("inf")

# ---------------------------------------------------------------- linear expressions
ZERO = (0, ())


def lc(c):
    return (c, ())


def ls(s):
    return (0, ((s, 1),))


def ladd(a, b, k=1):
    if k == 0:
        return a
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + k * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def lmul(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def lneg(a):
    return lmul(a, -1)


def isconst(a):
    return not a[1]


def lsyms(a):
    return [s for s, _ in a[1]]


def lsub(a, m):
    """substitute symbols by linear expressions"""
    r = (a[0], ())
    ch = False
    for s, c in a[1]:
        if s in m:
            r = ladd(r, m[s], c); ch = True
        else:
            r = ladd(r, ls(s), c)
    return r if ch else a


# ---------------------------------------------------------------- values
# ('L', lin) ('P', root, steps) ('C', cond) ('B', cond) ('F', sym) ('A', tuple) ('U',)
TRUE = ("T",)
FALSE = ("N",)


def cnot(c):
    k = c[0]
    if k == "T": return FALSE
    if k == "N": return TRUE
    if k == "ge":
        return ("ge", (-c[1][0] - 1, tuple((s, -x) for s, x in c[1][1])))
    if k == "eq": return ("ne", c[1])
    if k == "ne": return ("eq", c[1])
    if k == "and": return ("or", cnot(c[1]), cnot(c[2]))
    if k == "or": return ("and", cnot(c[1]), cnot(c[2]))
    if k == "fc": return ("fn", c[1:])
    if k == "fn": return ("fc",) + tuple(c[1])
    raise AssertionError(c)


def norm_eq(l):
    if l[1] and l[1][0][1] < 0:
        return lneg(l)
    return l


BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "ptr": 64}


def bits_of(ty):
    return BITS.get(ty)


class Sym:
    __slots__ = ("kind", "data", "ins")

    def __init__(self, kind, data, ins):
        self.kind = kind; self.data = data; self.ins = ins


class State:
    __slots__ = ("env", "facts", "bnd", "ne", "mem", "auto", "fb", "tr", "defs")

    def copy(self):
        s = State()
        s.env = dict(self.env); s.facts = set(self.facts); s.bnd = dict(self.bnd); s.ne = set(self.ne)
        s.mem = dict(self.mem); s.auto = self.auto; s.fb = dict(self.fb); s.tr = self.tr; s.defs = dict(self.defs)
        return s


def new_state():
    s = State()
    s.env = {}; s.facts = set(); s.bnd = {}; s.ne = set(); s.mem = {}; s.auto = None; s.fb = {}; s.tr = None; s.defs = {}
    return s


class Infeasible(Exception):
    pass


class Engine:
    """Subclass and override the hooks. run(fn, init) explores fn."""
    max_disjuncts = 1       # per (block, key); more = path sensitive
    widen_after = 3
    max_visits = 60000
    join_zones = False      # joins also try: joined number < tracked cell
    restart_loops = False   # when a loop header's state grows, forget what was derived behind it
    zone_syms = ()          # with join_zones: further symbols that joined values are compared with
    header_disjuncts = None # disjuncts at loop headers (as anywhere else if None)
    loop_unroll = 0         # extra disjuncts at loop headers before joining
    track_trace = True

    def __init__(self, mod):
        self.m = mod
        self.syms = []
        self.interned = {}
        self.rep = []            # reports
        self.fstart = {}
        self.assumed_nonneg = True
        self.stat = {"visits": 0, "states": 0, "branches": 0, "obligations": 0}

    # ------------------------------------------------------------ hooks
    def key(self, st):
        return self.strip_auto(st.auto)

    def on_call(self, st, ins, name, args):
        """return None for the default treatment, or a list of (state, value or None)"""
        return None

    def on_store(self, st, ins, ptr, val):
        pass

    def on_load(self, st, ins, ptr, val):
        pass

    def on_atomic(self, st, ins, kind, ptr, vals, res):
        pass

    def on_fence(self, st, ins):
        pass

    def on_branch(self, st, ins, cond, taken):
        """taken edge with condition already assumed; may mutate st"""
        pass

    def on_ret(self, st, ins, val):
        pass

    def on_access(self, st, ins, ptr, size, write):
        """bounds hook: size is a lin (bytes)"""
        pass

    def volatile(self, cls):
        """fields another thread may change at any time: every load yields a new value"""
        return False

    def tracked_root(self, root):
        return True

    def call_clobbers(self, st, ins, name, args):
        """yield mem keys to forget; default: everything except allocas whose address was not passed"""
        for k in list(st.mem):
            root = k[0]
            if root[0] == "al":
                if root in self._passed(args) or root in self.escaped:
                    yield k
            elif not self.call_preserves(st, ins, name, k):
                yield k

    def call_preserves(self, st, ins, name, key):
        return False

    def sym_range(self, st, cls, ins):
        """assumed (lo,hi) for a value loaded from field class cls, or None"""
        return None

    def stable_syms(self):
        return False

    # ------------------------------------------------------------ symbols
    def fresh(self, st, kind, data, ins, lo=None, hi=None):
        n = len(self.syms)
        self.syms.append(Sym(kind, data, ins))
        if lo is not None or hi is not None:
            st.bnd[n] = (-INF if lo is None else lo, INF if hi is None else hi)
        return n

    def intern(self, key, kind, data, lo=None, hi=None):
        n = self.interned.get(key)
        if n is None:
            n = len(self.syms)
            self.syms.append(Sym(kind, data, None))
            self.interned[key] = n
            self.ibnd[n] = (-INF if lo is None else lo, INF if hi is None else hi)
        return n

    def sbnd(self, st, s):
        b = st.bnd.get(s)
        if b is None:
            b = self.ibnd.get(s, (-INF, INF))
        return b

    def set_bnd(self, st, s, lo, hi):
        l, h = self.sbnd(st, s)
        l2 = max(l, lo); h2 = min(h, hi)
        if l2 > h2:
            raise Infeasible()
        if (l2, h2) != (l, h):
            st.bnd[s] = (l2, h2)
            return True
        return False

    # ------------------------------------------------------------ reasoning
    def lo(self, st, l):
        r = l[0]
        for s, c in l[1]:
            b = self.sbnd(st, s)
            r += c * (b[0] if c > 0 else b[1])
        return r

    def hi(self, st, l):
        r = l[0]
        for s, c in l[1]:
            b = self.sbnd(st, s)
            r += c * (b[1] if c > 0 else b[0])
        return r

    def bhi(self, st, l):
        """upper bound of l, using the facts as well"""
        r = self.hi(st, l)
        if len(l[1]) > 1:
            n = tuple((s, -c) for s, c in l[1])
            for f in st.facts:
                if f[1] == n: r = min(r, f[0] + l[0])
        return r

    def blo(self, st, l):
        return -self.bhi(st, lneg(l))

    def prove_ge(self, st, l, depth=3):
        """is l >= 0 implied?"""
        if self.lo(st, l) >= 0:
            return True
        if not l[1]:
            return False
        if depth == 0:
            return False
        ss = dict(l[1])
        for f in st.facts:
            # use fact f>=0 with positive multiplier k to cancel a symbol of l
            for s, c in f[1]:
                lcoef = ss.get(s)
                if lcoef is None or (lcoef > 0) != (c > 0):
                    continue
                if lcoef % c:
                    if c % lcoef:
                        continue
                    # scale l up instead (l*k >= 0 iff l >= 0)
                    k = c // lcoef
                    if k <= 0:
                        continue
                    nl = ladd(lmul(l, k), f, -1)
                else:
                    nl = ladd(l, f, -(lcoef // c))
                if len(nl[1]) > len(l[1]) + 1:
                    continue
                if self.prove_ge(st, nl, depth - 1):
                    return True
                break
        return False

    def decide(self, st, c):
        """True / False / None"""
        k = c[0]
        if k == "T": return True
        if k == "N": return False
        if k == "ge":
            l = c[1]
            if self.prove_ge(st, l): return True
            if self.prove_ge(st, (-l[0] - 1, tuple((s, -x) for s, x in l[1]))): return False
            return None
        if k in ("eq", "ne"):
            l = c[1]
            r = None
            if isconst(l):
                r = (l[0] == 0)
            elif norm_eq(l) in st.ne:
                r = False
            else:
                if self.lo(st, l) > 0 or self.hi(st, l) < 0:
                    r = False
                elif self.prove_ge(st, ladd(l, lc(-1))) or self.prove_ge(st, ladd(lneg(l), lc(-1))):
                    r = False
                elif self.prove_ge(st, l) and self.prove_ge(st, lneg(l)):
                    r = True
            if r is None: return None
            return r if k == "eq" else (not r)
        if k == "and":
            a = self.decide(st, c[1]); b = self.decide(st, c[2])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if k == "or":
            a = self.decide(st, c[1]); b = self.decide(st, c[2])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if k in ("fc", "fn"):
            return self.decide_f(st, c)
        return None

    def assume(self, st, c):
        """refine st (in place) under c; returns list of states (usually [st]), [] if infeasible"""
        d = self.decide(st, c)
        if d is True:
            self.refine_defs(st, c)
            return [st]
        if d is False:
            return []
        k = c[0]
        try:
            if k == "ge":
                self.add_ge(st, c[1])
            elif k == "eq":
                self.add_ge(st, c[1]); self.add_ge(st, lneg(c[1]))
            elif k == "ne":
                self.add_ne(st, c[1])
            elif k == "and":
                out = []
                for s in self.assume(st, c[1]):
                    out += self.assume(s, c[2])
                return out
            elif k == "or":
                s2 = st.copy()
                out = self.assume(st, c[1])
                for s in self.assume(s2, cnot(c[1])):
                    out += self.assume(s, c[2])
                return out
            elif k in ("fc", "fn"):
                if not self.assume_f(st, c):
                    return []
            self.refine_defs(st, c)
        except Infeasible:
            return []
        return [st]

    def add_ne(self, st, l):
        if isconst(l):
            if l[0] == 0: raise Infeasible()
            return
        if len(l[1]) == 1:
            s, c = l[1][0]
            if l[0] % c == 0:
                v = -l[0] // c
                lo, hi = self.sbnd(st, s)
                if lo == v: self.set_bnd(st, s, v + 1, INF)
                elif hi == v: self.set_bnd(st, s, -INF, v - 1)
                else: st.ne.add(norm_eq(l))
            return
        # l>=0 and l!=0 -> l>=1
        if self.prove_ge(st, l): self.add_ge(st, ladd(l, lc(-1)))
        elif self.prove_ge(st, lneg(l)): self.add_ge(st, ladd(lneg(l), lc(-1)))
        else: st.ne.add(norm_eq(l))

    def add_ge(self, st, l):
        if isconst(l):
            if l[0] < 0: raise Infeasible()
            return
        g = 0
        for _, c in l[1]:
            g = math.gcd(g, abs(c))
        if g > 1:
            l = (l[0] // g, tuple((s, c // g) for s, c in l[1]))
        if len(l[1]) == 1:
            s, c = l[1][0]
            if c > 0: ch = self.set_bnd(st, s, -(l[0] // c) if l[0] % c == 0 else math.ceil(-l[0] / c), INF)
            else: ch = self.set_bnd(st, s, -INF, l[0] // (-c))
            if ch: self.recheck(st, s)
            return
        if l not in st.facts:
            if len(st.facts) > 120:
                return
            st.facts.add(l)
            # does it tighten single bounds?
            self.tighten(st, l)
            n = norm_eq(l)
            for sh in (l,):
                if norm_eq(sh) in st.ne:
                    st.ne.discard(norm_eq(sh)); st.facts.discard(l)
                    self.add_ge(st, ladd(l, lc(-1)))
                    return

    def tighten(self, st, l):
        for s, c in l[1]:
            rest = (l[0], tuple(x for x in l[1] if x[0] != s))
            h = self.hi(st, rest)
            if h == INF: continue
            # c*s + rest >= 0  ->  c*s >= -h
            if c > 0: self.set_bnd(st, s, math.ceil(-h / c) if abs(h) < 2**50 else -(h // c), INF)
            else: self.set_bnd(st, s, -INF, h // (-c))

    def recheck(self, st, s):
        for f in list(st.facts):
            if any(x == s for x, _ in f[1]):
                if self.hi(st, f) < 0: raise Infeasible()
                self.tighten(st, f)
        b = self.sbnd(st, s)
        if b[0] == b[1]:
            if ("%d" % s) and (norm_eq((-b[0], ((s, 1),))) in st.ne): raise Infeasible()
        # integer holes
        for _ in range(8):
            lo, hi = self.sbnd(st, s)
            if lo != -INF and norm_eq((-lo, ((s, 1),))) in st.ne: self.set_bnd(st, s, lo + 1, INF)
            elif hi != INF and norm_eq((-hi, ((s, 1),))) in st.ne: self.set_bnd(st, s, -INF, hi - 1)
            else: break
        self.refine_sym(st, s)

    def refine_defs(self, st, c):
        pass

    def refine_sym(self, st, s):
        """backward refinement through definitions: ctlz, division"""
        d = st.defs.get(s)
        if not d: return
        if d[0] == "ctlz":
            lo, hi = self.sbnd(st, s)
            src, w = d[1], d[2]
            if len(src[1]) == 1 and src[1][0][1] == 1:
                # lo <= clz <= hi  ->  2^(w-1-hi) <= n < 2^(w-lo)
                nlo = 0 if hi >= w else 1 << int(w - 1 - hi)
                nhi = (1 << int(w - lo)) - 1
                x = src[1][0][0]
                if self.set_bnd(st, x, nlo - src[0], nhi - src[0]): self.refine_sym(st, x)
        elif d[0] == "or":     # s = src | const
            lo, hi = self.sbnd(st, s)
            src, k = d[1], d[2]
            if len(src[1]) == 1 and src[1][0][1] == 1 and self.lo(st, src) >= 0:
                x = src[1][0][0]
                nlo = max(0, lo - k)
                if self.set_bnd(st, x, nlo - src[0], hi - src[0]): self.refine_sym(st, x)
        elif d[0] == "uns":   # unsigned view of a signed value
            lo, hi = self.sbnd(st, s)
            src = d[1]
            if len(src[1]) == 1 and src[1][0][1] == 1 and hi < (1 << (d[2] - 1)):
                x = src[1][0][0]
                self.set_bnd(st, x, lo - src[0], hi - src[0])

    # ------------------------------------------------------------ floating point
    def fbnd(self, st, s):
        return st.fb.get(s, (-INF, INF, True))

    def fval(self, st, v):
        if v[0] == "Fc": return (v[1], v[1], False) if not math.isnan(v[1]) else (INF, -INF, True)
        if v[0] == "F": return self.fbnd(st, v[1])
        return (-INF, INF, True)

    def decide_f(self, st, c):
        neg = c[0] == "fn"
        pred, a, b = (c[1] if neg else c[1:])
        la, ha, na = self.fval(st, a); lb, hb, nb = self.fval(st, b)
        r = None
        un = na or nb
        p = pred[1:]
        o = pred[0] == "o"
        if pred in ("ord", "uno"):
            if not un: r = (pred == "ord")
            if pred == "uno" and a == b and la > ha: r = True
        else:
            base = None
            if p == "eq":
                if ha < lb or hb < la: base = False
                elif la == ha == lb == hb: base = True
            elif p == "ne":
                if ha < lb or hb < la: base = True
                elif la == ha == lb == hb: base = False
            elif p == "gt": base = True if la > hb else (False if ha <= lb else None)
            elif p == "ge": base = True if la >= hb else (False if ha < lb else None)
            elif p == "lt": base = True if ha < lb else (False if la >= hb else None)
            elif p == "le": base = True if ha <= lb else (False if la > hb else None)
            if not un: r = base
            elif o and base is False: r = False
            elif not o and base is True: r = True
        if r is None: return None
        return (not r) if neg else r

    def assume_f(self, st, c):
        neg = c[0] == "fn"
        pred, a, b = (c[1] if neg else c[1:])
        inv = {"oeq": "une", "une": "oeq", "ogt": "ule", "ule": "ogt", "oge": "ult", "ult": "oge", "olt": "uge",
               "uge": "olt", "ole": "ugt", "ugt": "ole", "one": "ueq", "ueq": "one", "ord": "uno", "uno": "ord"}
        if neg: pred = inv.get(pred, None)
        if pred is None: return True
        for (x, y, p) in ((a, b, pred), (b, a, {"ogt": "olt", "olt": "ogt", "oge": "ole", "ole": "oge", "ugt": "ult",
                                                  "ult": "ugt", "uge": "ule", "ule": "uge"}.get(pred, pred))):
            if x[0] != "F": continue
            lo, hi, nan = self.fbnd(st, x[1]); l2, h2, n2 = self.fval(st, y)
            if p[0] == "o": nan = False
            if p == "uno":
                if y[0] == "Fc" or x == y: lo, hi, nan = 1, 0, True
            elif p[1:] == "eq" and p[0] == "o": lo, hi = max(lo, l2), min(hi, h2)
            elif p[1:] in ("gt", "ge"):
                lo = max(lo, l2)
                if p[1:] == "gt" and l2 == h2 and lo == l2: lo = math.nextafter(l2, INF)
            elif p[1:] in ("lt", "le"):
                hi = min(hi, h2)
                if p[1:] == "lt" and l2 == h2 and hi == h2: hi = math.nextafter(h2, -INF)
            if lo > hi and not nan: return False
            st.fb[x[1]] = (lo, hi, nan)
        return True

    # ------------------------------------------------------------ value evaluation
    def const_val(self, v):
        k = v[0]
        if k == "c":
            n = int(v[1])
            if v[2] == 1: return ("C", TRUE if n else FALSE)
            return ("L", lc(n))
        if k == "n": return ("P", ("null",), ())
        if k == "u": return ("U",)
        if k == "z": return ("U",)
        if k == "f":
            t = v[1]
            try:
                return ("Fc", float(t.replace("+Inf", "inf").replace("-Inf", "-inf").replace("NaN", "nan").replace("Inf", "inf").replace("iinf", "inf")))
            except ValueError:
                return ("U",)
        if k == "g": return ("P", ("g", v[1]), ())
        if k == "fn": return ("P", ("fn", v[2]), ())
        if k == "xg":
            b = self.const_val(v[1])
            return self.gep(None, b, v[2])
        if k == "x" and v[1] == "inttoptr" and len(v) > 2 and v[2] and v[2][0][0] == "c":
            return ("P", ("n", lc(int(v[2][0][1]))), ())
        if k == "a": return None
        return None

    def val(self, st, v):
        if v[0] == "i":
            r = st.env.get(v[1])
            if r is None:
                r = self.opaque(st, self.f.inst[v[1]], "undef-ssa")
                st.env[v[1]] = r
            return r
        if v[0] == "a": return self.argv[v[1]]
        r = self.const_val(v)
        if r is None:
            return ("U",)
        return r

    def opaque(self, st, ins, kind="op", data=None, ty=None):
        ty = ty or ins.ty
        if ty == "ptr":
            s = self.fresh(st, kind, data, ins, 0, (1 << 64) - 1)
            return ("P", ("s", s), ())
        if ty == "i1":
            s = self.fresh(st, kind, data, ins, 0, 1)
            return ("C", ("ne", ls(s)))
        if ty in ("double", "float"):
            s = self.fresh(st, kind, data, ins)
            return ("F", s)
        w = bits_of(ty)
        if w:
            s = self.fresh(st, kind, data, ins, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return ("L", ls(s))
        return ("O", self.fresh(st, kind, data, ins))

    def lin(self, st, v, ins=None):
        """integer view of a value"""
        k = v[0]
        if k == "L": return v[1]
        if k == "B" or k == "C":
            d = self.decide(st, v[1])
            if d is not None: return lc(1 if d else 0)
            c = v[1]
            if c[0] == "ne" and len(c[1][1]) == 1 and c[1][0] == 0 and abs(c[1][1][0][1]) == 1:
                s = c[1][1][0][0]
                if self.sbnd(st, s) == (0, 1): return ls(s)
            s = self.fresh(st, "bool", v[1], ins, 0, 1)
            return ls(s)
        if k == "P": return self.plin(st, v)
        s = self.fresh(st, "any", None, ins)
        return ls(s)

    def plin(self, st, p):
        root, steps = p[1], p[2]
        if root == ("null",):
            r = ZERO
        elif root[0] == "s":
            r = ls(root[1])
        elif root[0] == "n":
            r = root[1]
        else:
            r = ls(self.intern(("addr", root), "addr", root, 4096, (1 << 47)))
        for s in steps:
            if s[0] == "f": r = ladd(r, lc(s[3]))
            elif s[0] == "x": r = ladd(r, s[1], s[2])
        return r

    def gep(self, st, base, path):
        if base[0] != "P":
            if base[0] == "L":
                # integer used as pointer: keep as symbolic address
                return ("P", ("n", base[1]), ())
            return ("U",)
        steps = list(base[2])
        for p in path:
            if p[0] == "f":
                steps.append(("f", p[1], p[3], p[4], p[5]))
            elif p[0] == "x":
                ix = self.lin(st, self.val(st, p[1])) if st is not None else lc(int(p[1][1]))
                esz, ln = p[2], p[3]
                if ln == -1:
                    # pointer arithmetic: merge with the last index step of the same element size
                    if steps and steps[-1][0] == "x" and steps[-1][2] == esz:
                        o = steps[-1]
                        steps[-1] = ("x", ladd(o[1], ix), esz, o[3])
                    else:
                        if not (isconst(ix) and ix[0] == 0):
                            steps.append(("x", ix, esz, -1))
                else:
                    steps.append(("x", ix, esz, ln))
            else:
                return ("U",)
        return ("P", base[1], tuple(steps))

    def root_struct(self, root):
        """project structure the memory named by a root begins with"""
        if root[0] == "arg":
            return self.f.aty[root[1]] if root[1] < len(self.f.aty) else ""
        if root[0] == "al":
            al = self.f.inst.get(root[1])
            t = al.x.get("aty", "") if al is not None and al.op == "alloca" else ""
            return t[1:] if t.startswith("%") else ""
        if root[0] == "s":
            d = self.syms[root[1]]
            if d.kind == "load" and d.data and len(d.data) > 2 and d.data[2]: return self.ptr_struct(d.data[2], True)
        return ""

    def ptr_struct(self, ptr, pointee=False):
        """project structure a pointer points at (pointee: the one the pointer stored there points at)"""
        if ptr[0] != "P": return ""
        for s in reversed(ptr[2]):
            if s[0] == "f":
                f = self.m.fld.get((s[1], s[2]))
                return (f[5] if pointee else f[4]) if f else ""
            if s[0] != "x": return ""
        if pointee: return ""
        return self.root_struct(ptr[1])

    def descend(self, ptr, size):
        """the access path down to the field really accessed (the first field of a structure has the address of the structure)"""
        if ptr[0] != "P": return ptr
        for _ in range(6):
            q = self.ptr_struct(ptr)
            f = self.m.fld0.get(q) if q else None
            tot = self.m.structs[q]["size"] if f else 0
            if not f or size > f[2] or size >= tot: return ptr
            steps = ptr[2]
            if steps and steps[-1][0] == "f" and steps[-1][4] > tot:
                steps = steps + (("x", ZERO, tot, steps[-1][4] // tot),)
            ptr = ("P", ptr[1], steps + (("f", q, f[0], 0, f[2]),))
        return ptr

    @staticmethod
    def cls(ptr):
        """field class: 'Struct.field' of the last project field on the path (+ '[k]' for constant index)"""
        if ptr[0] != "P": return ""
        name = ""
        for s in ptr[2]:
            if s[0] == "f":
                if s[1].startswith("std::") or s[2] in ("", "_M_i", "_M_elems", "_M_base"): continue
                name = s[1].split("::")[-1] + "." + s[2]
        return name

    @staticmethod
    def memkey(ptr):
        steps = tuple(s for s in ptr[2] if not (s[0] == "f" and (s[2] in ("", "_M_i", "_M_elems", "_M_base") and s[3] == 0)))
        # drop trailing zero decays (arrays' first element == array)
        st = list(steps)
        while st and st[-1][0] == "x" and st[-1][1] == ZERO:
            st.pop()
        while st and st[-1][0] == "f" and st[-1][3] == 0 and (st[-1][1].startswith("std::") or not st[-1][1].startswith(("FNLog", "UDP"))):
            st.pop()
        return (ptr[1], tuple((s[0], s[1], s[2]) if s[0] == "f" else (s[0], s[1], s[2]) for s in st))

    @staticmethod
    def keysyms(key):
        out = set()
        if key[0][0] == "s": out.add(key[0][1])
        for s in key[1]:
            if s[0] == "x": out.update(lsyms(s[1]))
        return out

    def store_mem(self, st, ptr, val):
        if ptr[0] != "P": return
        key = self.memkey(ptr)
        cl = self.cls(ptr)
        for k in list(st.mem):
            if k == key: continue
            if self.may_alias(st, k, key):
                del st.mem[k]
        if self.tracked_root(key[0]):
            st.mem[key] = val

    def field_start(self, struct, field):
        k = (struct, field)
        if k not in self.fstart:
            try: self.fstart[k] = self.m.field_off(struct, field)
            except AnalysisError: self.fstart[k] = 0
        return self.fstart[k]

    def may_alias(self, st, k1, k2):
        r1, r2 = k1[0], k2[0]
        if r1[0] == "al" or r2[0] == "al":
            if r1 != r2: return False
        s1, s2 = k1[1], k2[1]
        if r1 == r2:
            # compare paths
            for a, b in zip(s1, s2):
                if a[0] == "f" and b[0] == "f":
                    if a[1:] != b[1:]:
                        if a[1] == b[1]: return False
                        return False
                elif a[0] == "x" and b[0] == "x":
                    if a[2] == b[2]:
                        if self.decide(st, ("eq", ladd(a[1], b[1], -1))) is False: return False
                else:
                    return False
            if len(s1) != len(s2):
                # a scalar at the start of an object and a field further on
                n = min(len(s1), len(s2)); x = (s1 if len(s1) > n else s2)[n]
                if x[0] == "f" and self.field_start(x[1], x[2]) >= 8: return False
            return True
        # different roots: same field class may alias (type based)
        f1 = [s for s in s1 if s[0] == "f"]; f2 = [s for s in s2 if s[0] == "f"]
        if f1 and f2:
            return f1[-1][1:] == f2[-1][1:]
        if not f1 and not f2: return r1[0] not in ("g",) and r2[0] not in ("g",)
        return False

    def load_mem(self, st, ins, ptr):
        ty = ins.ty
        if ptr[0] != "P":
            return self.opaque(st, ins, "load", ("", None))
        key = self.memkey(ptr)
        cl = self.cls(ptr)
        atomic = "ord" in ins.x
        if not atomic and not (cl and self.volatile(cl)):
            v = st.mem.get(key)
            if v is not None:
                return self.coerce(st, v, ty, ins)
        g = ptr[1]
        if g[0] == "g":
            c = self.const_load(ptr, ty)
            if c is not None: return c
        v = self.opaque(st, ins, "load", (cl, key, ptr))
        r = self.sym_range(st, cl, ins)
        if r and v[0] == "L":
            try:
                self.set_bnd(st, v[1][1][0][0], r[0], r[1])
            except Infeasible:
                pass
        if not atomic and not (cl and self.volatile(cl)) and self.tracked_root(key[0]):
            st.mem[key] = v
        return v

    def coerce(self, st, v, ty, ins):
        if ty == "ptr":
            if v[0] == "P": return v
            if v[0] == "L" and v[1] == ZERO: return ("P", ("null",), ())
            return self.opaque(st, ins, "cast")
        if ty == "i1":
            return v if v[0] == "C" else self.opaque(st, ins, "cast")
        if ty in ("double", "float"):
            return v if v[0] in ("F", "Fc") else self.opaque(st, ins, "cast")
        if bits_of(ty):
            if v[0] in ("L", "B"): return v
            if v[0] == "P": return ("L", self.plin(st, v))
            if v[0] == "C": return ("B", v[1])
            return self.opaque(st, ins, "cast")
        return v

    def const_load(self, ptr, ty):
        """load from a constant global with a known initializer and constant indices"""
        g = self.m.globals.get(ptr[1][1])
        if not g or not g.get("const") or "init" not in g: return None
        v = g["init"]
        for s in ptr[2]:
            if s[0] == "f":
                q = self.m.structs.get(s[1])
                fs = sorted(q["fields"], key=lambda z: z[1]) if q else ()
                ix = [k for k, z in enumerate(fs) if z[0] == s[2]]
                if v[0] != "s": return None
                if ix and len(v[1]) == len(fs): v = v[1][ix[0]]
                else:
                    off = 0
                    for w in v[1]:
                        z = int(w[2]) // 8 if w[0] == "c" else 8 if w[0] in ("g", "n", "fn", "xg") else None
                        if not z: return None
                        off += -off % z
                        if off == s[3]: break
                        off += z
                    else: return None
                    v = w
            if s[0] == "x":
                if not isconst(s[1]): return None
                n = s[1][0]
                if v[0] == "str":
                    h = v[1][2 * n:2 * n + 2]
                    if len(h) < 2: return None
                    b = int(h, 16)
                    return ("L", lc(b - 256 if b > 127 else b))
                if v[0] == "s":
                    if n < 0 or n >= len(v[1]): return None
                    v = v[1][n]
                else:
                    return None
        while v[0] == "s" and v[1]: v = v[1][0]
        if v[0] == "c": return ("L", lc(int(v[1])))
        if v[0] == "g": return ("P", ("g", v[1]), ())
        if v[0] == "n": return ("P", ("null",), ())
        return None

    # ------------------------------------------------------------ integer helpers
    def wrapfix(self, st, l, w, ins, signed_ok):
        """result of an arithmetic op: mathematical value if it provably fits, otherwise a fresh value"""
        lo, hi = self.lo(st, l), self.hi(st, l)
        smin, smax, umax = -(1 << (w - 1)), (1 << (w - 1)) - 1, (1 << w) - 1
        if signed_ok:
            # overflow of a signed operation is undefined: the result is in range
            if hi > smax: self.add_ge(st, ladd(lc(smax), l, -1))
            if lo < smin: self.add_ge(st, ladd(l, lc(-smin)))
            return ("L", l)
        if lo >= smin and hi <= umax and (hi <= smax or lo >= 0):
            return ("L", l)
        # a difference proven non-negative by the facts
        if hi <= umax and lo < 0 and self.prove_ge(st, l):
            return ("L", l)
        s = self.fresh(st, "wrap", l, ins, smin, umax)
        return ("L", ls(s))

    def uns(self, st, l, w, ins):
        """unsigned reading of a w-bit value"""
        if self.lo(st, l) >= 0: return l
        if self.prove_ge(st, l): return l
        if isconst(l): return lc(l[0] & ((1 << w) - 1))
        key = ("uns", l, w)
        s = self.unsmemo.get(key)
        if s is None:
            s = self.fresh(st, "uns", l, ins)
            self.unsmemo[key] = s
        if s not in st.bnd:
            st.bnd[s] = (0, (1 << w) - 1)
            st.defs[s] = ("uns", l, w)
            if self.hi(st, l) < 0:
                st.bnd[s] = ((1 << (w - 1)), (1 << w) - 1)
        return ls(s)

    def cmpc(self, st, pred, a, b, w, ins):
        if pred in ("eq", "ne"):
            l = ladd(a, b, -1)
            if isconst(l):
                if w and w < 128:
                    t = (l[0] % (1 << w)) == 0
                else:
                    t = l[0] == 0
                return TRUE if t == (pred == "eq") else FALSE
            return (pred, l)
        if pred[0] == "u":
            a = self.uns(st, a, w, ins); b = self.uns(st, b, w, ins)
        p = pred[1:]
        if p == "gt": return ("ge", ladd(ladd(a, b, -1), lc(-1)))
        if p == "ge": return ("ge", ladd(a, b, -1))
        if p == "lt": return ("ge", ladd(ladd(b, a, -1), lc(-1)))
        if p == "le": return ("ge", ladd(b, a, -1))
        raise AssertionError(pred)

    # ------------------------------------------------------------ instruction transfer
    def step(self, st, ins):
        """execute a non-terminator; returns list of states"""
        op = ins.op
        x = ins.x
        env = st.env
        if op == "alloca":
            root = ("al", ins.id)
            env[ins.id] = ("P", root, ())
            self.alloca_size[root] = x["size"]
            for k in [k for k in st.mem if k[0] == root]: del st.mem[k]
            return [st]
        if op == "getelementptr":
            base = self.val(st, ins.a[0])
            r = self.gep(st, base, x["path"])
            env[ins.id] = r if r[0] != "U" else self.opaque(st, ins)
            return [st]
        if op == "load":
            p = self.val(st, ins.a[0])
            w = bits_of(ins.ty)
            p = self.descend(p, (w or 64) // 8 if w != 1 else 1)
            self.on_access(st, ins, p, lc((w or 64) // 8 if w != 1 else 1), False)
            v = self.load_mem(st, ins, p)
            env[ins.id] = v
            if "ord" in x: self.on_atomic(st, ins, "load", p, (), v)
            else: self.on_load(st, ins, p, v)
            return [st]
        if op == "store":
            v = self.val(st, ins.a[0]); p = self.descend(self.val(st, ins.a[1]), x.get("vsz", 8))
            self.on_access(st, ins, p, lc(x.get("vsz", 8)), True)
            if v[0] == "P" and v[1][0] == "al":
                self.escaped.add(v[1]) if not (p[0] == "P" and p[1][0] == "al") else self.stored_ptrs.setdefault(p[1], set()).add(v[1])
            if "ord" in x: self.on_atomic(st, ins, "store", p, (v,), None)
            else: self.on_store(st, ins, p, v)
            self.store_mem(st, p, v)
            return [st]
        if op == "phi":
            return [st]
        if op in ("call", "invoke"):
            return self.do_call(st, ins)
        if op == "cmpxchg":
            p = self.descend(self.val(st, ins.a[0]), 4); e = self.val(st, ins.a[1]); n = self.val(st, ins.a[2])
            old = self.opaque(st, ins, "cas-old", (self.cls(p), self.memkey(p) if p[0] == "P" else None, p), "i32" if True else None)
            ok = self.fresh(st, "cas-ok", ins.id, ins, 0, 1)
            s2 = st.copy()
            # success
            st.env[ins.id] = ("A", (e, ("C", TRUE)))
            st.mem.pop(self.memkey(p), None) if p[0] == "P" else None
            self.on_atomic(st, ins, "cas", p, (e, n), True)
            s2.env[ins.id] = ("A", (old, ("C", FALSE)))
            self.on_atomic(s2, ins, "cas", p, (e, n), False)
            return [st, s2]
        if op == "atomicrmw":
            p = self.descend(self.val(st, ins.a[0]), bits_of(ins.ty) // 8); v = self.val(st, ins.a[1])
            r = self.opaque(st, ins, "rmw", (self.cls(p), self.memkey(p) if p[0] == "P" else None, p))
            self.on_access(st, ins, p, lc(bits_of(ins.ty) // 8), True)
            self.on_atomic(st, ins, "rmw", p, (x["rmw"], v), r)
            if p[0] == "P": st.mem.pop(self.memkey(p), None)
            env[ins.id] = r
            return [st]
        if op == "extractvalue":
            v = self.val(st, ins.a[0])
            ix = x["ix"]
            if v[0] == "A" and len(ix) == 1 and ix[0] < len(v[1]) and v[1][ix[0]] is not None:
                env[ins.id] = v[1][ix[0]]
            else:
                env[ins.id] = self.opaque(st, ins)
            return [st]
        if op == "insertvalue":
            v = self.val(st, ins.a[0]); e = self.val(st, ins.a[1]); ix = x["ix"]
            if len(ix) == 1:
                el = list(v[1]) if v[0] == "A" else []
                while len(el) <= ix[0]: el.append(None)
                el[ix[0]] = e
                env[ins.id] = ("A", tuple(el))
            else:
                env[ins.id] = self.opaque(st, ins)
            return [st]
        if op == "select":
            c = self.val(st, ins.a[0]); a = self.val(st, ins.a[1]); b = self.val(st, ins.a[2])
            if c[0] != "C":
                env[ins.id] = self.opaque(st, ins); return [st]
            if ins.ty == "i1" and a[0] == "C" and b[0] == "C":
                env[ins.id] = ("C", self.mk_or(self.mk_and(c[1], a[1]), self.mk_and(cnot(c[1]), b[1])))
                return [st]
            s2 = st.copy()
            out = []
            for s in self.assume(st, c[1]):
                s.env[ins.id] = a; out.append(s)
            for s in self.assume(s2, cnot(c[1])):
                s.env[ins.id] = b; out.append(s)
            return out
        if op == "icmp":
            a = self.val(st, ins.a[0]); b = self.val(st, ins.a[1])
            w = bits_of(x["oty"])
            if x["oty"] == "i1" and a[0] == "C" and b[0] == "C":
                d = self.decide(st, b[1])
                if d is not None:
                    r = a[1] if d == (x["pred"] == "eq") else cnot(a[1])
                    env[ins.id] = ("C", r); return [st]
            if a[0] == "B" and b[0] == "L" and isconst(b[1]) and x["pred"] in ("eq", "ne"):
                t = b[1][0]
                if t in (0, 1):
                    r = a[1] if (t == 1) == (x["pred"] == "eq") else cnot(a[1])
                    env[ins.id] = ("C", r); return [st]
            if x["oty"] == "ptr" and x["pred"] in ("eq", "ne") and a[0] == "P" and b[0] == "P":
                # an object's address is never null
                for p, q in ((a, b), (b, a)):
                    if q[1] == ("null",) and not q[2] and (p[1][0] in ("al", "g", "fn") or (p[2] and any((s[0] == "f" and s[3]) for s in p[2]))):
                        env[ins.id] = ("C", TRUE if x["pred"] == "ne" else FALSE); return [st]
            env[ins.id] = ("C", self.cmpc(st, x["pred"], self.lin(st, a, ins), self.lin(st, b, ins), w, ins))
            return [st]
        if op == "fcmp":
            a = self.val(st, ins.a[0]); b = self.val(st, ins.a[1])
            if a[0] in ("F", "Fc") and b[0] in ("F", "Fc"):
                env[ins.id] = ("C", ("fc", x["pred"], a, b))
            else: env[ins.id] = self.opaque(st, ins)
            return [st]
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            env[ins.id] = self.cast(st, ins, op); return [st]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            env[ins.id] = self.arith(st, ins, op); return [st]
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "fptrunc", "sitofp", "uitofp", "fptoui", "fptosi"):
            env[ins.id] = self.farith(st, ins, op); return [st]
        if op == "fence":
            self.on_fence(st, ins); return [st]
        if ins.ty != "void":
            env[ins.id] = self.opaque(st, ins)
        return [st]

    def mk_and(self, a, b):
        if a == FALSE or b == FALSE: return FALSE
        if a == TRUE: return b
        if b == TRUE: return a
        return ("and", a, b)

    def mk_or(self, a, b):
        if a == TRUE or b == TRUE: return TRUE
        if a == FALSE: return b
        if b == FALSE: return a
        return ("or", a, b)

    def cast(self, st, ins, op):
        v = self.val(st, ins.a[0])
        w = bits_of(ins.ty); fw = bits_of(ins.x["from"]) if "from" in ins.x else w
        if op in ("bitcast", "freeze"):
            return self.coerce(st, v, ins.ty, ins)
        if op == "ptrtoint":
            return ("L", self.plin(st, v)) if v[0] == "P" else self.opaque(st, ins)
        if op == "inttoptr":
            if v[0] == "L":
                if v[1] == ZERO: return ("P", ("null",), ())
                if len(v[1][1]) == 1 and v[1][1][0][1] == 1 and v[1][0] == 0: return ("P", ("s", v[1][1][0][0]), ())
            return self.opaque(st, ins)
        if op == "zext":
            if v[0] == "C": return ("B", v[1])
            if v[0] == "B": return v
            if v[0] == "L": return ("L", self.uns(st, v[1], fw, ins))
            return self.opaque(st, ins)
        if op == "sext":
            if v[0] == "B" and fw > 1: return v
            if v[0] == "L":
                l = v[1]
                if self.hi(st, l) <= (1 << (fw - 1)) - 1 and self.lo(st, l) >= -(1 << (fw - 1)): return v
                s = self.fresh(st, "sext", l, ins, -(1 << (fw - 1)), (1 << (fw - 1)) - 1)
                return ("L", ls(s))
            return self.opaque(st, ins)
        if op == "trunc":
            if v[0] == "B": return ("C", v[1]) if ins.ty == "i1" else v
            if v[0] == "L":
                l = v[1]
                if ins.ty == "i1":
                    if self.lo(st, l) >= 0 and self.hi(st, l) <= 1: return ("C", ("ne", l))
                    return self.opaque(st, ins)
                lo, hi = self.lo(st, l), self.hi(st, l)
                if lo >= -(1 << (w - 1)) and hi <= (1 << (w - 1)) - 1: return v
                if lo >= 0 and hi <= (1 << w) - 1: return v     # read back as unsigned
                if self.trunc_keeps(st, ins, l, w): return v
                r = self.opaque(st, ins, "trunc", (l, w))
                return r
            return self.opaque(st, ins)
        return self.opaque(st, ins)

    def trunc_keeps(self, st, ins, l, w):
        """may a rule treat this narrowing as value preserving?"""
        return False

    def arith(self, st, ins, op):
        a = self.val(st, ins.a[0]); b = self.val(st, ins.a[1])
        w = bits_of(ins.ty)
        if ins.ty == "i1":
            if a[0] == "C" and b[0] == "C":
                if op == "and": return ("C", self.mk_and(a[1], b[1]))
                if op == "or": return ("C", self.mk_or(a[1], b[1]))
                if op == "xor":
                    if b[1] == TRUE: return ("C", cnot(a[1]))
                    if a[1] == TRUE: return ("C", cnot(b[1]))
                    return ("C", self.mk_or(self.mk_and(a[1], cnot(b[1])), self.mk_and(cnot(a[1]), b[1])))
            return self.opaque(st, ins)
        if op == "and" and a[0] == "B" and b[0] == "L" and b[1] == lc(1): return a
        if op in ("and", "or") and a[0] == "B" and b[0] == "B":
            return ("B", self.mk_and(a[1], b[1]) if op == "and" else self.mk_or(a[1], b[1]))
        la = self.lin(st, a, ins); lb = self.lin(st, b, ins)
        nsw = ins.x.get("nsw"); nuw = ins.x.get("nuw")
        if op == "add": return self.wrapfix(st, ladd(la, lb), w, ins, nsw)
        if op == "sub": return self.wrapfix(st, ladd(la, lb, -1), w, ins, nsw)
        if op == "mul":
            if isconst(lb): return self.wrapfix(st, lmul(la, lb[0]), w, ins, nsw)
            if isconst(la): return self.wrapfix(st, lmul(lb, la[0]), w, ins, nsw)
            return self.defd(st, ins, ("mul", la, lb))
        if op == "shl" and isconst(lb) and 0 <= lb[0] < 64:
            return self.wrapfix(st, lmul(la, 1 << lb[0]), w, ins, nsw)
        if op in ("udiv", "lshr") and isconst(lb) and lb[0] >= 0:
            d = lb[0] if op == "udiv" else (1 << min(lb[0], 127))
            if d == 0: return self.opaque(st, ins)
            ua = self.uns(st, la, w, ins)
            if isconst(ua): return ("L", lc(ua[0] // d))
            lo, hi = self.blo(st, ua), self.bhi(st, ua)
            r = self.fresh(st, "div", (ua, d), ins, lo // d if lo >= 0 else 0, hi // d)
            st.defs[r] = ("div", ua, d)
            return ("L", ls(r))
        if op in ("urem",) and isconst(lb) and lb[0] > 0:
            ua = self.uns(st, la, w, ins)
            if isconst(ua): return ("L", lc(ua[0] % lb[0]))
            hi = self.bhi(st, ua)
            if hi < lb[0] and self.blo(st, ua) >= 0: return ("L", ua)
            return self.defd(st, ins, ("rem", ua, lb[0]), 0, min(lb[0] - 1, hi))
        if op in ("sdiv", "srem") and isconst(lb) and lb[0] > 0:
            lo, hi = self.blo(st, la), self.bhi(st, la)
            d = lb[0]
            if op == "sdiv":
                if isconst(la): return ("L", lc(int(abs(la[0]) // d) * (1 if la[0] >= 0 else -1)))
                f = lambda v: v if abs(v) == INF else (abs(v) // d) * (1 if v >= 0 else -1)
                return self.defd(st, ins, ("div", la, d), f(lo), f(hi))
            if isconst(la):
                return ("L", lc((abs(la[0]) % d) * (1 if la[0] >= 0 else -1)))
            if lo >= 0 and hi < d: return ("L", la)
            return self.defd(st, ins, ("rem", la, d), 0 if lo >= 0 else -(d - 1), d - 1)
        if op == "and":
            for l, m in ((la, lb), (lb, la)):
                if isconst(m) and m[0] >= 0:
                    if isconst(l): return ("L", lc((l[0] & ((1 << w) - 1)) & m[0]))
                    if m[0] & (m[0] + 1) == 0 and self.lo(st, l) >= 0 and self.hi(st, l) <= m[0]: return ("L", l)
                    return self.defd(st, ins, ("and", l, m), 0, m[0])
            lo, hi = self.blo(st, la), self.bhi(st, la)
            return self.defd(st, ins, ("and", la, lb))
        if op == "or" and isconst(lb) and lb[0] >= 0:
            ua = self.uns(st, la, w, ins)
            if isconst(ua): return ("L", lc(ua[0] | lb[0]))
            lo, hi = self.blo(st, ua), self.bhi(st, ua)
            up = (1 << max(int(hi).bit_length(), lb[0].bit_length())) - 1
            return self.defd(st, ins, ("or", ua, lb[0]), max(lo, lb[0]), min(up, hi + lb[0]))
        if op == "xor" and isconst(lb) and lb[0] == -1:
            return self.defd(st, ins, ("not", la))
        if op == "lshr" or op == "shl" or op == "ashr" or op == "or" or op == "xor" or op in ("udiv", "sdiv", "urem", "srem"):
            if isconst(la) and isconst(lb):
                x, y = la[0], lb[0]
                if op == "or": return ("L", lc(x | y))
                if op == "xor": return ("L", lc(x ^ y))
                if op == "ashr": return ("L", lc(x >> y))
            return self.defd(st, ins, (op, la, lb))
        return self.opaque(st, ins)

    def defd(self, st, ins, d, lo=None, hi=None):
        w = bits_of(ins.ty)
        if d[0] == "rem":       # the same remainder again
            for s, e in st.defs.items():
                if e == d: return ("L", ls(s))
        s = self.fresh(st, "def", d, ins, -(1 << (w - 1)) if lo is None else lo, (1 << (w - 1)) - 1 if hi is None else hi)
        st.defs[s] = d
        return ("L", ls(s))

    def farith(self, st, ins, op):
        a = self.val(st, ins.a[0])
        if op in ("fptoui", "fptosi"):
            lo, hi, nan = self.fval(st, a)
            w = bits_of(ins.ty)
            self.on_fptoint(st, ins, a, lo, hi, nan)
            if nan or lo == -INF or hi == INF or lo > hi:
                return ("L", ls(self.fresh(st, "fptoi", None, ins, 0 if op == "fptoui" else -(1 << (w - 1)), (1 << w) - 1 if op == "fptoui" else (1 << (w - 1)) - 1)))
            return ("L", ls(self.fresh(st, "fptoi", None, ins, math.ceil(lo) if lo < 0 else math.floor(lo), math.floor(hi) if hi >= 0 else math.ceil(hi))))
        if op in ("sitofp", "uitofp"):
            l = self.lin(st, a, ins)
            if op == "uitofp": l = self.uns(st, l, 64, ins)
            s = self.fresh(st, "itofp", l, ins)
            lo, hi = self.lo(st, l), self.hi(st, l)
            st.fb[s] = (float(lo), float(hi), False)
            return ("F", s)
        lo, hi, nan = self.fval(st, a)
        s = self.fresh(st, "fop", None, ins)
        if op in ("fpext", "fptrunc"):
            if op == "fpext":
                st.fb[s] = (lo, hi, nan)
            else:
                st.fb[s] = (lo if lo == -INF else lo - abs(lo) * 1e-6 - 1e-44, hi if hi == INF else hi + abs(hi) * 1e-6 + 1e-44, nan)
            return ("F", s)
        if op == "fneg":
            st.fb[s] = (-hi, -lo, nan); return ("F", s)
        b = self.val(st, ins.a[1])
        l2, h2, n2 = self.fval(st, b)
        try:
            if op == "fmul":
                c = [x * y for x in (lo, hi) for y in (l2, h2)]
            elif op == "fadd":
                c = [lo + l2, hi + h2]
            elif op == "fsub":
                c = [lo - h2, hi - l2]
            else:
                if l2 <= 0 <= h2: raise ZeroDivisionError
                c = [x / y for x in (lo, hi) for y in (l2, h2)]
            if any(math.isnan(x) for x in c): raise ZeroDivisionError
            mx = max(abs(x) for x in c)
            st.fb[s] = (min(c), max(c), nan or n2 or mx == INF)
        except (ZeroDivisionError, OverflowError):
            st.fb[s] = (-INF, INF, True)
        return ("F", s)

    def on_fptoint(self, st, ins, a, lo, hi, nan):
        pass

    # ------------------------------------------------------------ calls
    def _passed(self, args):
        out = set()
        work = [v[1] for v in args if v and v[0] == "P" and v[1][0] == "al"]
        while work:
            r = work.pop()
            if r in out: continue
            out.add(r)
            work += list(self.stored_ptrs.get(r, ()))
        return out

    PURE = re.compile(r"^llvm\.(lifetime|dbg|expect|assume|experimental\.noalias|objectsize|is\.constant|stacksave|stackrestore|ctlz|cttz|ctpop|fabs|abs|smax|smin|umax|umin|is\.fpclass|threadlocal)")

    def do_call(self, st, ins):
        name = ins.callee
        args = [self.val(st, v) for v in ins.a]
        if name.startswith("llvm."):
            r = self.intrinsic(st, ins, name, args)
            if r is not None: return r
        r = self.on_call(st, ins, name, args)
        if r is None:
            r = self.std_call(st, ins, name, args)
        if r is None:
            if not self.PURE.match(name):
                for k in list(self.call_clobbers(st, ins, name, args)):
                    st.mem.pop(k, None)
            r = [(st, None)]
        out = []
        for s, v in r:
            if ins.ty != "void":
                s.env[ins.id] = v if v is not None else self.opaque(s, ins, "call", (name, tuple(args)))
            out.append(s)
        return out

    def intrinsic(self, st, ins, name, args):
        if name.startswith("llvm.ctlz"):
            w = bits_of(ins.ty)
            l = self.uns(st, self.lin(st, args[0]), w, ins)
            self.on_ctlz(st, ins, l)
            lo, hi = self.lo(st, l), self.hi(st, l)
            chi = w - int(max(lo, 0)).bit_length(); clo = w - int(min(hi, (1 << w) - 1)).bit_length()
            s = self.fresh(st, "ctlz", l, ins, clo, chi)
            st.defs[s] = ("ctlz", l, w)
            st.env[ins.id] = ("L", ls(s)); return [st]
        if name.startswith("llvm.threadlocal.address"):
            st.env[ins.id] = args[0]; return [st]
        if name.startswith("llvm.expect"):
            st.env[ins.id] = args[0]; return [st]
        if name.startswith("llvm.fabs"):
            a = args[0]
            lo, hi, nan = self.fval(st, a)
            s = self.fresh(st, "fabs", a, ins)
            if lo >= 0: st.fb[s] = (lo, hi, nan)
            elif hi <= 0: st.fb[s] = (-hi, -lo, nan)
            else: st.fb[s] = (0.0, max(-lo, hi), nan)
            st.env[ins.id] = ("F", s); return [st]
        if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            n = self.lin(st, args[2])
            n = self.uns(st, n, 64, ins)
            self.on_access(st, ins, args[0], n, True)
            if not name.startswith("llvm.memset"): self.on_access(st, ins, args[1], n, False)
            self.on_memop(st, ins, name, args, n)
            self.mem_effect(st, ins, name, args, n)
            return [st]
        if name.startswith("llvm.is.fpclass"):
            st.env[ins.id] = self.opaque(st, ins, "fpclass"); return [st]
        if name.startswith(("llvm.lifetime.start", "llvm.lifetime.end")):
            if args[1][0] == "P" and args[1][1][0] == "al" and name.startswith("llvm.lifetime.start"):
                for k in [k for k in st.mem if k[0] == args[1][1]]: del st.mem[k]
            return [st]
        if name.startswith("llvm.abs"):
            l = self.lin(st, args[0]); lo, hi = self.lo(st, l), self.hi(st, l)
            if lo >= 0: st.env[ins.id] = args[0]; return [st]
            st.env[ins.id] = ("L", ls(self.fresh(st, "abs", l, ins, 0, max(abs(lo), abs(hi))))); return [st]
        if name in ("llvm.trap",): return []
        return None

    def on_ctlz(self, st, ins, l):
        pass

    def on_memop(self, st, ins, name, args, n):
        pass

    track_bytes = False     # remember the bytes copied from short constant texts

    def mem_effect(self, st, ins, name, args, n):
        d = args[0]
        if d[0] != "P": return
        key = self.memkey(d)
        for k in list(st.mem):
            if self.may_alias(st, k, key) or (k[0] == key[0] and k[1][:len(key[1])] == key[1]):
                del st.mem[k]
        # a short text (or a run of equal bytes) whose bytes are known
        if not self.track_bytes or not isconst(n) or not 0 < n[0] <= 32 or not self.tracked_root(key[0]): return
        bs = []
        for i in range(n[0]):
            if name.startswith("llvm.memset"): v = args[1]
            else:
                q = self.byte_at(args[1], i) if args[1][0] == "P" and args[1][1][0] == "g" else None
                v = self.const_load(q, "i8") if q else None
            if v is None or v[0] != "L" or not isconst(v[1]): return
            bs.append(v)
        for i, v in enumerate(bs):
            q = self.byte_at(d, i)
            if q: st.mem[self.memkey(q)] = v

    def byte_at(self, ptr, i):
        """the i-th byte after ptr, when ptr leads into an array of bytes"""
        s = ptr[2]
        if s and s[-1][0] == "x":
            if s[-1][2] != 1: return None
            return ("P", ptr[1], s[:-1] + (("x", ladd(s[-1][1], lc(i)), 1, s[-1][3]),))
        if s and s[-1][0] == "f":
            f = self.m.fld.get((s[-1][1], s[-1][2]))
            if f is None or f[2] < 1 or f[4]: return None
        elif ptr[1][0] != "g": return None
        return ("P", ptr[1], s + (("x", lc(i), 1, 0),))

    def std_call(self, st, ins, name, args):
        return None

    # ------------------------------------------------------------ driver
    def run(self, fn, init=None, args=None):
        self.f = fn
        self.ibnd = getattr(self, "ibnd", {})
        self.unsmemo = {}
        self.alloca_size = {}
        self.escaped = set()
        self.stored_ptrs = {}
        st = init or new_state()
        self.st0 = st
        self.argv = args or self.make_args(fn, st)
        self.setup(st)
        live = fn.live_in
        table = {}
        counts = {}
        heap = []
        n = 0
        seq = 0

        def push(b, s):
            nonlocal seq
            seq += 1
            heapq.heappush(heap, (fn.rpon[b], seq, b, s))
        self.arrive(table, counts, fn, 0, st, push)
        while heap:
            _, _, b, s = heapq.heappop(heap)
            if s.tr is not None and s.tr[0] == "dead":
                continue
            n += 1
            if n > self.max_visits:
                raise AnalysisError("analysis of %s did not converge (%d block visits)" % (fn.name, n))
            for (nb, ns) in self.exec_block(fn, b, s.copy()):
                self.arrive(table, counts, fn, nb, ns, push)
        self.stat["visits"] += n
        self.stat["states"] += sum(len(v) for v in table.values())
        self.table = table
        return table

    def make_args(self, fn, st):
        out = []
        for i, (ty, nm, byval) in enumerate(fn.args):
            if ty == "ptr":
                out.append(("P", ("arg", i), ()))
            elif ty == "i1":
                s = self.intern(("arg", fn.key, i), "arg", (i, nm), 0, 1)
                out.append(("C", ("ne", ls(s))))
            elif bits_of(ty):
                w = bits_of(ty)
                s = self.intern(("arg", fn.key, i), "arg", (i, nm), -(1 << (w - 1)), (1 << (w - 1)) - 1)
                out.append(("L", ls(s)))
            elif ty in ("double", "float"):
                s = self.intern(("arg", fn.key, i), "arg", (i, nm))
                out.append(("F", s))
            else:
                out.append(("U",))
        return out

    def setup(self, st):
        pass

    def exec_block(self, fn, b, st):
        ins_list = fn.blocks[b]
        states = [st]
        for ins in ins_list[:-1]:
            nxt = []
            for s in states:
                try:
                    nxt += self.step(s, ins)
                except Infeasible:
                    pass
            states = nxt
            if not states: return []
        t = ins_list[-1]
        out = []
        for s in states:
            try:
                out += self.term(fn, b, s, t)
            except Infeasible:
                pass
        return out

    def term(self, fn, b, s, t):
        op = t.op
        if op == "br":
            tg = t.x["t"]
            if len(tg) == 1:
                return self.edge(fn, b, tg[0], s)
            c = self.val(s, t.a[0])
            cond = c[1] if c[0] == "C" else ("ne", ls(self.fresh(s, "br", None, t, 0, 1)))
            self.stat["branches"] += 1
            out = []
            s2 = s.copy()
            for x in self.assume(s, cond):
                if self.on_branch(x, t, cond, True) is not False: out += self.edge(fn, b, tg[0], x)
            for x in self.assume(s2, cnot(cond)):
                if self.on_branch(x, t, cond, False) is not False: out += self.edge(fn, b, tg[1], x)
            return out
        if op == "switch":
            v = self.val(s, t.a[0])
            l = self.lin(s, v, t)
            out = []
            bytgt = {}
            for (cv, tg) in t.x["cases"]:
                bytgt.setdefault(tg, []).append(int(cv))
            d = s.copy()
            self.stat["branches"] += 1
            for tg, vs in bytgt.items():
                # contiguous runs
                vs.sort()
                runs = []
                for x in vs:
                    if runs and runs[-1][1] == x - 1: runs[-1][1] = x
                    else: runs.append([x, x])
                for lo, hi in runs:
                    x = s.copy()
                    r = [y for z in self.assume(x, ("ge", ladd(l, lc(-lo)))) for y in self.assume(z, ("ge", ladd(lc(hi), l, -1)))]
                    if lo == hi:
                        r = [y for z in r for y in self.assume(z, ("eq", ladd(l, lc(-lo))))]
                    for y in r:
                        if self.on_branch(y, t, ("eq", ladd(l, lc(-lo))), True) is not False: out += self.edge(fn, b, tg, y)
            r = [d]
            for (cv, tg) in t.x["cases"]:
                r = [y for z in r for y in self.assume(z, ("ne", ladd(l, lc(-int(cv)))))]
            for y in r:
                if self.on_branch(y, t, None, False) is not False: out += self.edge(fn, b, t.x["def"], y)
            return out
        if op == "invoke":
            out = []
            # the callee runs before control leaves on either edge
            s2 = s.copy()
            for y in self.step(s, t):
                out += self.edge(fn, b, t.x["to"], y)
            if not t.x.get("nothrow"):
                for y in self.unwind(s2, t):
                    out += self.edge(fn, b, t.x["unw"], y)
            return out
        if op == "ret":
            v = self.val(s, t.a[0]) if t.a else None
            self.on_ret(s, t, v)
            return []
        if op == "resume":
            self.on_unwind_exit(s, t)
            return []
        return []

    def unwind(self, st, ins):
        """state on the exceptional edge of an invoke"""
        args = [self.val(st, v) for v in ins.a]
        for k in list(self.call_clobbers(st, ins, ins.callee, args)):
            st.mem.pop(k, None)
        return [st]

    def on_unwind_exit(self, st, ins):
        pass

    def phi_value(self, st, fn, x, v):
        """the value a phi takes on one edge (a rule may give it a more telling form)"""
        return v

    def edge(self, fn, b, nb, s):
        # parallel phi assignment
        new = {}
        for x in fn.blocks[nb]:
            if x.op != "phi": break
            for (p, v) in x.x["inc"]:
                if p == b:
                    new[x.id] = self.phi_value(s, fn, x, self.val(s, v)); break
        forks = [k for k, v in new.items() if v[0] in ("C", "B") and self.decide(s, v[1]) is None]
        if not forks or len(forks) > 2:
            s.env.update(new)
            return [(nb, s)]
        # an undecided condition chosen as the value of a flag: follow both of its values, as a branch would
        states = [(s, new)]
        for k in forks:
            nxt = []
            for (s1, nw) in states:
                v = nw[k]; c = v[1]
                s2 = s1.copy()
                ins = fn.inst[k]
                for sx, cc, tk in ((s1, c, True), (s2, cnot(c), False)):
                    try: ys = self.assume(sx, cc)
                    except Infeasible: continue
                    for y in ys:
                        if self.on_branch(y, ins, c, tk) is False: continue
                        w = dict(nw); w[k] = (v[0], TRUE if tk else FALSE)
                        nxt.append((y, w))
            states = nxt
        out = []
        for y, w in states:
            y.env.update(w); out.append((nb, y))
        return out

    # ------------------------------------------------------------ garbage collection, order, join
    def vsyms(self, v, out):
        if v is None: return
        k = v[0]
        if k == "L":
            for s, _ in v[1][1]: out.add(s)
        elif k == "P":
            if v[1][0] == "s": out.add(v[1][1])
            elif v[1][0] == "n":
                for s, _ in v[1][1][1]: out.add(s)
            for t in v[2]:
                if t[0] == "x":
                    for s, _ in t[1][1]: out.add(s)
        elif k in ("C", "B"):
            self.csyms(v[1], out)
        elif k == "F": out.add(v[1])
        elif k == "A":
            for e in v[1]: self.vsyms(e, out)
        elif k == "O": out.add(v[1])

    def csyms(self, c, out):
        if c[0] in ("ge", "eq", "ne"):
            for s, _ in c[1][1]: out.add(s)
        elif c[0] in ("and", "or"):
            self.csyms(c[1], out); self.csyms(c[2], out)
        elif c[0] == "fc":
            for v in c[2:4]: self.vsyms(v, out)
        elif c[0] == "fn":
            for v in c[1][1:3]: self.vsyms(v, out)

    def auto_syms(self, st):
        """symbols the automaton state refers to"""
        out = set()

        def walk(a):
            if isinstance(a, tuple):
                if len(a) == 2 and a[0] == "sym": out.add(a[1]); return
                if len(a) == 2 and a[0] == "lin":
                    for s, _ in a[1][1]: out.add(s)
                    return
                for x in a: walk(x)
            elif isinstance(a, frozenset):
                for x in a: walk(x)
        walk(st.auto)
        return out

    def gc(self, fn, b, st):
        live = fn.live_in[b]
        phis = set()
        for x in fn.blocks[b]:
            if x.op != "phi": break
            phis.add(x.id)
        st.env = {k: v for k, v in st.env.items() if k in live or k in phis}
        keep = set(self.auto_syms(st))
        for v in st.env.values(): self.vsyms(v, keep)
        # interned symbols are always live
        ib = self.ibnd
        mem = {}
        pending = dict(st.mem)
        ch = True
        while ch:
            ch = False
            for k in list(pending):
                if k[0][0] == "al" and not self.alloca_live(fn, b, k[0]):
                    del pending[k]; continue
                ks = self.keysyms(k)
                if all(s in keep or s in ib for s in ks):
                    v = pending.pop(k); mem[k] = v
                    self.vsyms(v, keep); ch = True
        st.mem = mem
        # definitions kept for live symbols (their operands become live too, one level)
        nd = {}
        work = [s for s in keep if s in st.defs]
        for s in work:
            d = st.defs[s]
            if s in nd: continue
            nd[s] = d
            for z in d[1:]:
                if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], tuple):
                    for q, _ in z[1]:
                        if q not in keep:
                            keep.add(q)
        st.defs = nd
        # facts: project out dead symbols
        dead = set()
        for f in st.facts:
            for s, _ in f[1]:
                if s not in keep and s not in ib: dead.add(s)
        for d in dead:
            pos = []; neg = []; rest = set()
            for f in st.facts:
                c = 0
                for s, k in f[1]:
                    if s == d: c = k; break
                if c > 0: pos.append((f, c))
                elif c < 0: neg.append((f, -c))
                else: rest.add(f)
            if len(pos) * len(neg) <= 16:
                for f, c in pos:
                    for g, e in neg:
                        h = ladd(lmul(f, e), lmul(g, c))
                        if not h[1]:
                            continue
                        if len(h[1]) == 1:
                            try:
                                st.facts = rest
                                self.add_ge(st, h)
                                rest = st.facts
                            except Infeasible:
                                return False
                            continue
                        gg = 0
                        for _, q in h[1]: gg = math.gcd(gg, abs(q))
                        if gg > 1: h = (h[0] // gg, tuple((s, q // gg) for s, q in h[1]))
                        if self.lo(st, h) < 0: rest.add(h)
            st.facts = rest
        st.ne = {f for f in st.ne if all(s in keep or s in ib for s, _ in f[1])}
        st.bnd = {s: v for s, v in st.bnd.items() if s in keep or s in ib}
        st.fb = {s: v for s, v in st.fb.items() if s in keep or s in ib}
        return True

    def alloca_live(self, fn, b, root):
        return True

    def boolkey(self, fn, b, st):
        """live boolean constants: kept apart so that flag variables stay correlated with control flow"""
        out = []
        for k, v in st.env.items():
            if v[0] in ("C", "B"):
                d = self.decide(st, v[1])
                out.append((k, d))
            elif v[0] == "L" and isconst(v[1]) and self.flagconst(fn, k, v[1][0]):
                out.append((k, v[1][0]))
            elif v[0] == "P" and v[1] == ("null",):
                out.append((k, "null"))
        return tuple(sorted(out, key=lambda x: x[0]))

    def flagconst(self, fn, k, c):
        i = fn.inst.get(k)
        if i is None: return False
        if i.ty == "i8": return c in (0, 1)
        return k in self.flagphis(fn)

    @staticmethod
    def flagphis(fn):
        """integer phis that only choose between constants (exit codes of blocks with several exits)"""
        fp = getattr(fn, "_flagphis", None)
        if fp is None:
            fp = {i.id for i in fn.insts() if i.op == "phi" and i.ty in ("i32", "i8")}
            ch = True
            while ch:
                ch = False
                for k in list(fp):
                    if not all(v[0] in ("c", "u") or (v[0] == "i" and v[1] in fp) for _, v in fn.inst[k].x["inc"]):
                        fp.discard(k); ch = True
            fn._flagphis = fp
        return fp

    def arrive(self, table, counts, fn, b, st, push):
        try:
            if self.gc(fn, b, st) is False: return
        except Infeasible:
            return
        key = (b, self.key(st), self.boolkey(fn, b, st))
        L = table.setdefault(key, [])
        for o in L:
            if o is st or self.leq(st, o):
                return
        lim = self.max_disjuncts
        if b in fn.headers: lim = self.header_disjuncts or max(lim, self.loop_unroll)
        if len(L) < lim:
            L.append(st); push(b, st); return
        counts[key] = counts.get(key, 0) + 1
        o = L[-1]
        if counts[key] <= self.widen_after and self.leq(o, st):
            o.tr = ("dead",); L[-1] = st; push(b, st); return     # the new state covers the old one
        hd = b in fn.headers or b == 0     # every cycle contains a header: widening there is enough
        j = self.join(o, st, widen=hd and counts[key] > self.widen_after, hard=counts[key] > (25 if hd else 200))
        o.tr = ("dead",)
        try:
            if self.gc(fn, b, j) is False: return
        except Infeasible: return
        L[-1] = j
        # the join may now cover other disjuncts
        if self.restart_loops and b in fn.headers and counts[key] <= 12:
            # whatever lies behind this header was derived from states the grown ones cover: derive it again
            dom = fn.domset(b)
            for k2 in [k for k in table if k[0] in dom]:
                for o in table.pop(k2): o.tr = ("dead",)
                if counts[key] <= 6: counts.pop(k2, None)
            for k2, L2 in table.items():
                if k2[0] == b:
                    for o in L2:
                        if o is not j: push(b, o)
        push(b, j)

    # inclusion test: is s covered by o?
    def leq(self, s, o):
        if s.auto != o.auto and not self.auto_match(s, o): return False
        sub = {}
        late = len(self.rel_coefs) > 2     # positions built from several numbers: those first
        if not late and not self.match_auto(s, o, sub): return False
        for k, v in (sorted(o.env.items(), key=lambda z: len(z[1][1][1]) if z[1][0] == "L" else 0) if late else o.env.items()):
            w = s.env.get(k)
            if w is None: return False
            if not self.match_val(s, v, w, sub): return False
        if late and not self.match_auto(s, o, sub): return False
        for k, v in o.mem.items():
            kk = self.subkey(k, sub)
            if kk is None: return False
            w = s.mem.get(kk)
            if w is None: return False
            if not self.match_val(s, v, w, sub): return False
        for sy, l in sub.items():
            lo, hi = o.bnd.get(sy, self.ibnd.get(sy, (-INF, INF)))
            if lo > -(1 << 63) and not self.prove_ge(s, ladd(l, lc(-lo)), 2): return False   # values lie in the range of their type
            if hi < (1 << 64) - 1 and not self.prove_ge(s, ladd(lc(hi), l, -1), 2): return False
            d = o.defs.get(sy)
            if d is not None:
                if len(l[1]) != 1 or l[0] != 0 or l[1][0][1] != 1: return False
                d2 = s.defs.get(l[1][0][0])
                if d2 is None or d2[0] != d[0]: return False
                for z, z2 in zip(d[1:], d2[1:]):
                    if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], tuple):
                        if lsub(z, sub) != z2: return False
                    elif z != z2: return False
        for sy, b in o.bnd.items():
            if sy in sub: continue
            lo, hi = b
            l2, h2 = self.sbnd(s, sy)
            if l2 < lo or h2 > hi:
                # only matters when the symbol is visible in s
                if sy in s.bnd or sy in self.ibnd: return False
                return False
        for f in o.facts:
            if not self.prove_ge(s, lsub(f, sub)): return False
        for f in o.ne:
            if self.decide(s, ("ne", lsub(f, sub))) is not True: return False
        for sy, (lo, hi, nan) in o.fb.items():
            t = sub.get(("f", sy), sy)
            l2, h2, n2 = s.fb.get(t, (-INF, INF, True)) if not isinstance(t, tuple) else self.fval(s, t)
            if l2 < lo or h2 > hi or (n2 and not nan): return False
        return True

    def auto_match(self, s, o):
        return self.strip_auto(s.auto) == self.strip_auto(o.auto)

    def strip_auto(self, a):
        if isinstance(a, tuple):
            if len(a) == 2 and a[0] in ("sym", "lin"): return (a[0],)
            return tuple(self.strip_auto(x) for x in a)
        return a

    def match_auto(self, s, o, sub):
        def walk(a, b):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) == 2 and a[0] == "sym" and len(b) == 2 and b[0] == "sym":
                    return self.bind(s, sub, a[1], ls(b[1]))
                if len(a) == 2 and a[0] == "lin" and len(b) == 2 and b[0] == "lin":
                    return self.match_lin(s, a[1], b[1], sub)
                if len(a) != len(b): return False
                return all(walk(x, y) for x, y in zip(a, b))
            return a == b
        return walk(o.auto, s.auto)

    def bind(self, s, sub, sy, l):
        if sy in self.ibnd:
            return l == ls(sy) or self.decide(s, ("eq", ladd(ls(sy), l, -1))) is True
        if sy in sub:
            return sub[sy] == l or self.decide(s, ("eq", ladd(sub[sy], l, -1))) is True
        sub[sy] = l
        return True

    def match_lin(self, s, v, w, sub):
        """o-value v covers s-value w (extend sub)"""
        if not v[1]:
            return v == w or self.decide(s, ("eq", ladd(v, w, -1))) is True
        free = [x for x in v[1] if x[0] not in sub and x[0] not in self.ibnd]
        if len(free) == 1 and abs(free[0][1]) == 1:
            sy, c = free[0]
            rest = (v[0], tuple(x for x in v[1] if x[0] != sy))
            l = ladd(w, lsub(rest, sub), -1)
            if c < 0: l = lneg(l)
            sub[sy] = l
            return True
        for (x, c) in free:
            sub[x] = ls(x)
        l = lsub(v, sub)
        return l == w or self.decide(s, ("eq", ladd(l, w, -1))) is True

    def match_val(self, s, v, w, sub):
        if v[0] != w[0]:
            if v[0] == "U": return True
            if v[0] == "L" and w[0] == "B": return self.match_lin(s, v[1], self.lin(s, w), sub)
            if v[0] == "F" and w[0] == "Fc":
                sub.setdefault(("f", v[1]), w); return sub[("f", v[1])] == w
            return False
        k = v[0]
        if k == "L": return self.match_lin(s, v[1], w[1], sub)
        if k == "P":
            if len(v[2]) != len(w[2]): return False
            if v[1][0] == "s":
                if w[1][0] == "s": 
                    if not self.bind(s, sub, v[1][1], ls(w[1][1])): return False
                elif not v[2] and v[1][0] == "s" and not w[2]:
                    return self.bind(s, sub, v[1][1], self.plin(s, w)) and self.loose_ptr
                else: return False
            elif v[1] != w[1]: return False
            for a, b in zip(v[2], w[2]):
                if a[0] != b[0]: return False
                if a[0] == "f":
                    if a != b: return False
                else:
                    if a[2] != b[2] or a[3] != b[3]: return False
                    if not self.match_lin(s, a[1], b[1], sub): return False
            return True
        if k in ("C", "B"):
            if v == w: return True
            d1 = v[1]
            if d1 in (TRUE, FALSE):
                return self.decide(s, w[1]) is (d1 == TRUE)
            if d1[0] == "ne" and len(d1[1][1]) == 1 and d1[1][0] == 0 and d1[1][1][0][1] == 1:
                sy = d1[1][1][0][0]
                if w[1][0] == "ne" and len(w[1][1][1]) == 1 and w[1][1][0] == 0 and w[1][1][1][0][1] == 1:
                    return self.bind(s, sub, sy, w[1][1])
                dd = self.decide(s, w[1])
                if dd is not None: return self.bind(s, sub, sy, lc(1 if dd else 0))
                # generic boolean abstraction: sy must be otherwise unconstrained 0/1
                return self.bind(s, sub, sy, self.lin(s, w))
            return self.match_cond(s, v[1], w[1], sub)
        if k == "F":
            sub.setdefault(("f", v[1]), w[1])
            return sub[("f", v[1])] == w[1]
        if k == "A":
            if len(v[1]) != len(w[1]): return False
            return all((a is None and b is None) or (a is not None and b is not None and self.match_val(s, a, b, sub)) for a, b in zip(v[1], w[1]))
        if k == "O": return True
        return v == w

    loose_ptr = True

    def match_cond(self, s, c, d, sub):
        if c[0] != d[0]: return False
        if c[0] in ("ge", "eq", "ne"):
            return self.match_lin(s, c[1], d[1], sub)
        if c[0] in ("and", "or"):
            return self.match_cond(s, c[1], d[1], sub) and self.match_cond(s, c[2], d[2], sub)
        return c == d

    def subkey(self, k, sub):
        root = k[0]
        if root[0] == "s":
            l = sub.get(root[1])
            if l is not None:
                if l[0] != 0 or len(l[1]) != 1 or l[1][0][1] != 1: return None
                root = ("s", l[1][0][0])
        st = tuple((t[0], lsub(t[1], sub), t[2]) if t[0] == "x" else t for t in k[1])
        return (root, st)

    # join
    rel_join = False
    rel_coefs = (1, -1)
    split_join = False      # joined expressions keep the terms both sides share

    def join(self, a, b, widen=False, hard=False):
        """least-ish upper bound of a (old) and b (new)"""
        J = State()
        J.env = {}; J.mem = {}; J.facts = set(); J.ne = set(); J.bnd = {}; J.fb = {}; J.tr = None; J.defs = {}
        memo = {}; offs = {}
        ma = {}; mb = {}      # new symbol -> lin in a / b
        self._nz = 0

        def jl(la, lb):
            if la == lb: return la
            k = (la, lb)
            if k in memo: return memo[k]
            if self.split_join and not hard:
                com = tuple(t for t in la[1] if t in lb[1])
                if com: return ladd((0, com), jl(ladd(la, (0, com), -1), ladd(lb, (0, com), -1)))
            if self.rel_join:
                # a sum or difference with an already joined pair that both sides agree on
                for (xa, xb), x in list(memo.items()):
                    for c in self.rel_coefs:
                        r = ladd(la, xa, c)
                        if r == ladd(lb, xb, c): memo[k] = ladd(r, x, -c); return memo[k]
                if len(self.rel_coefs) > 2:
                    it = [z for z in memo.items() if z[1][1] and (z[0][0][1] or z[0][1][1] or z[0][0] != z[0][1])][:24]
                    for (xa, xb), x in it:
                        for c in self.rel_coefs[:2]:
                            ra = ladd(la, xa, c); rb = ladd(lb, xb, c)
                            for (ya, yb), y in it:
                                for d in self.rel_coefs[2:]:
                                    r = ladd(ra, ya, d)
                                    if r == ladd(rb, yb, d): memo[k] = ladd(ladd(r, x, -c), y, -d); return memo[k]
            # constant offset of an already joined pair
            ok_ = (la[1], lb[1], la[0] - lb[0])
            o = offs.get(ok_)
            alo, ahi = self.blo(a, la), self.bhi(a, la); blo, bhi = self.blo(b, lb), self.bhi(b, lb)
            if o is None:
                s = len(self.syms)
                self.syms.append(Sym("join", None, None))
            lo, hi = min(alo, blo), max(ahi, bhi)
            if widen:
                if blo < alo:
                    lo = -INF if alo != 0 and blo < 0 else (1 if blo >= 1 else 0 if blo >= 0 else -INF)
                    lo = max(lo, -(1 << 63))
                if bhi > ahi:
                    hi = INF
                    for t in self.thresholds:
                        if bhi <= t: hi = t; break
            if o is not None:
                # same quantity up to a constant: its own widened range holds as well
                dd = la[0] - o[0]; s = o[1][1][0][0]
                l0, h0 = J.bnd[s]
                J.bnd[s] = (max(l0, lo - dd), min(h0, hi - dd))
                r2 = ladd(o[1], lc(dd)); memo[k] = r2; return r2
            J.bnd[s] = (lo, hi)
            # keep the origin if both sides agree on it
            if len(la[1]) == 1 and len(lb[1]) == 1 and la[0] == lb[0] == 0 and la[1][0][1] == lb[1][0][1] == 1:
                sa, sb = self.syms[la[1][0][0]], self.syms[lb[1][0][0]]
                if sa.ins is sb.ins and sa.kind == sb.kind and sa.kind != "join":
                    self.syms[s] = Sym(sa.kind, sa.data if sa.data == sb.data else self.join_data(sa.data, sb.data), sa.ins)
                elif sa.kind == "join" and sa.data: self.syms[s] = Sym("join", sa.data, None)
            ma[s] = la; mb[s] = lb
            memo[k] = ls(s)
            offs[ok_] = (la[0], ls(s))
            return ls(s)

        def jptr(va, vb):
            if va == vb: return va
            if va[1] == vb[1] and len(va[2]) == len(vb[2]):
                st = []
                for x, y in zip(va[2], vb[2]):
                    if x == y: st.append(x); continue
                    if x[0] == "x" and y[0] == "x" and x[2:] == y[2:]:
                        st.append(("x", jl(x[1], y[1]), x[2], x[3]))
                    else: break
                else:
                    return ("P", va[1], tuple(st))
            if va[1][0] == "s" and vb[1][0] == "s" and not va[2] and not vb[2]:
                l = jl(ls(va[1][1]), ls(vb[1][1]))
                if len(l[1]) == 1 and l[0] == 0: return ("P", ("s", l[1][0][0]), ())
            if va[1][0] == "s" and vb[1][0] == "s" and len(va[2]) == len(vb[2]) and len(va[2]) > 0:
                l = jl(ls(va[1][1]), ls(vb[1][1]))
                if len(l[1]) == 1 and l[0] == 0:
                    st = []
                    for x, y in zip(va[2], vb[2]):
                        if x == y: st.append(x); continue
                        if x[0] == "x" and y[0] == "x" and x[2:] == y[2:]: st.append(("x", jl(x[1], y[1]), x[2], x[3]))
                        else: break
                    else:
                        return ("P", ("s", l[1][0][0]), tuple(st))
            l = jl(self.plin(a, va), self.plin(b, vb))
            if len(l[1]) == 1 and l[0] == 0: return ("P", ("s", l[1][0][0]), ())
            s = len(self.syms); self.syms.append(Sym("join", None, None)); J.bnd[s] = (0, (1 << 64) - 1)
            ma[s] = self.plin(a, va); mb[s] = self.plin(b, vb)
            return ("P", ("s", s), ())

        def jv(va, vb):
            if va == vb: return va
            ka, kb = va[0], vb[0]
            if ka == "L" and kb == "L": return ("L", jl(va[1], vb[1]))
            if ka == "P" and kb == "P": return jptr(va, vb)
            if ka in ("C", "B") and kb == ka:
                l = jl(self.lin(a, va), self.lin(b, vb))
                if isconst(l): return (ka, TRUE if l[0] else FALSE)
                if len(l[1]) == 1 and l[0] == 0: return (ka, ("ne", l))
                s = len(self.syms); self.syms.append(Sym("join", None, None)); J.bnd[s] = (0, 1)
                return (ka, ("ne", ls(s)))
            if ka in ("L", "B") and kb in ("L", "B"):
                return ("L", jl(self.lin(a, va), self.lin(b, vb)))
            if ka in ("F", "Fc") and kb in ("F", "Fc"):
                k = (va, vb)
                if k in memo: return memo[k]
                s = len(self.syms); self.syms.append(Sym("join", None, None))
                l1, h1, n1 = self.fval(a, va); l2, h2, n2 = self.fval(b, vb)
                J.fb[s] = (min(l1, l2), max(h1, h2), n1 or n2) if not widen else (-INF, INF, True)
                memo[k] = ("F", s)
                return ("F", s)
            if ka == "A" and kb == "A" and len(va[1]) == len(vb[1]):
                return ("A", tuple(jv(x, y) if x is not None and y is not None else None for x, y in zip(va[1], vb[1])))
            if ka == "U": return vb
            if kb == "U": return va
            return ("O", -1)

        def jauto(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                if len(x) == 2 and x[0] == "sym" and y[0] == "sym":
                    l = jl(ls(x[1]), ls(y[1]))
                    if len(l[1]) == 1 and l[0] == 0: return ("sym", l[1][0][0])
                    s = len(self.syms); self.syms.append(Sym("join", None, None)); return ("sym", s)
                if len(x) == 2 and x[0] == "lin" and y[0] == "lin": return ("lin", jl(x[1], y[1]))
                return tuple(jauto(p, q) for p, q in zip(x, y))
            return x
        if len(self.rel_coefs) <= 2: J.auto = jauto(a.auto, b.auto)
        for k in a.env:
            if k in b.env: J.env[k] = jv(a.env[k], b.env[k])
        if len(self.rel_coefs) > 2: J.auto = jauto(a.auto, b.auto)
        skel = {}
        for k2 in b.mem:
            skel.setdefault((k2[0] if k2[0][0] != "s" else "s", tuple(x[1:] if x[0] == "f" else x[2] for x in k2[1])), []).append(k2)
        for k, v in a.mem.items():
            if k in b.mem: J.mem[k] = jv(v, b.mem[k])
        for k, v in a.mem.items():
            # the same cell under joined symbols
            for k2 in skel.get((k[0] if k[0][0] != "s" else "s", tuple(x[1:] if x[0] == "f" else x[2] for x in k[1])), ()):
                if k2 == k: continue
                root = k[0]
                if root != k2[0]:
                    l = memo.get((ls(root[1]), ls(k2[0][1])))
                    if l is None or len(l[1]) != 1 or l[0]: continue
                    root = ("s", l[1][0][0])
                steps = []
                for x, y in zip(k[1], k2[1]):
                    if x == y: steps.append(x); continue
                    l = memo.get((x[1], y[1])) if x[0] == "x" else None
                    if l is None: break
                    steps.append(("x", l, x[2]))
                else:
                    J.mem[(root, tuple(steps))] = jv(v, b.mem[k2]); break
        # bounds of shared symbols
        for s in set(a.bnd) & set(b.bnd):
            l1, h1 = a.bnd[s]; l2, h2 = b.bnd[s]
            J.bnd[s] = (min(l1, l2), max(h1, h2))
        for s in set(a.fb) & set(b.fb):
            l1, h1, n1 = a.fb[s]; l2, h2, n2 = b.fb[s]
            J.fb[s] = (min(l1, l2), max(h1, h2), n1 or n2)
        for s in set(a.bnd) ^ set(b.bnd):
            if s in self.ibnd: pass
        for s in a.defs:
            if b.defs.get(s) == a.defs[s]: J.defs[s] = a.defs[s]
        for s, la in ma.items():
            lb = mb[s]
            if len(la[1]) == 1 and len(lb[1]) == 1 and la[0] == lb[0] == 0 and la[1][0][1] == lb[1][0][1] == 1:
                da = a.defs.get(la[1][0][0]); db = b.defs.get(lb[1][0][0])
                if da and db and da[0] == db[0] and len(da) == len(db):
                    nd = [da[0]]
                    for z, z2 in zip(da[1:], db[1:]):
                        if z == z2: nd.append(z); continue
                        if not (isinstance(z, tuple) and len(z) == 2 and isinstance(z2, tuple) and len(z2) == 2): break
                        r = memo.get((z, z2))
                        if r is None:
                            o = offs.get((z[1], z2[1], z[0] - z2[0]))
                            if o is not None: r = ladd(o[1], lc(z[0] - o[0]))
                        if r is None: break
                        nd.append(r)
                    else: J.defs[s] = tuple(nd)
        # facts
        if not hard:
            inv_a = {}
            for s, l in ma.items():
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    x, c = l[1][0]
                    # l = c*x + k  ->  x = c*(s - k)
                    inv_a.setdefault(x, []).append(lmul(ladd(ls(s), lc(-l[0])), c))
            inv_b = {}
            for s, l in mb.items():
                if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
                    x, c = l[1][0]
                    inv_b.setdefault(x, []).append(lmul(ladd(ls(s), lc(-l[0])), c))
            common = set(J.bnd) | set(self.ibnd)
            cands = set()
            for (st, inv) in ((a, inv_a), (b, inv_b)):
                if widen and st is b: continue
                for f in st.facts:
                    opts = [(f[0], ())]
                    opts = [lc(f[0])]
                    ok = True
                    for s, c in f[1]:
                        reps = list(inv.get(s, []))
                        if s in self.ibnd or (s in a.bnd and s in b.bnd): reps.append(ls(s))
                        if not reps: ok = False; break
                        opts = [ladd(o, r, c) for o in opts for r in reps[:3]]
                        if len(opts) > 9: opts = opts[:9]
                    if ok: cands.update(opts)
            # a bound one side has against a symbol: relate joined symbols with each other and with live symbols
            news = list(ma)
            buck = {}
            for s in news: buck.setdefault((ma[s][1], mb[s][1]), []).append(s)
            neg = lambda t: tuple((x, -c) for x, c in t)
            for i, s in enumerate(news):
                same_ = buck.get((ma[s][1], mb[s][1]), ()); opp_ = buck.get((neg(ma[s][1]), neg(mb[s][1])), ())
                for (lst, sg) in ((same_, 1), (opp_, -1)):
                    for t in lst:
                        if t <= s: continue
                        da = ladd(ma[s], ma[t], -sg); db = ladd(mb[s], mb[t], -sg)
                        if isconst(da) and isconst(db):
                            d = ladd(ls(s), ls(t), -sg)
                            lo = min(da[0], db[0]); hi = max(da[0], db[0])
                            if not widen or da == db:
                                cands.add(ladd(d, lc(-lo))); cands.add(ladd(lc(hi), d, -1))
                            elif db[0] >= da[0]: cands.add(ladd(d, lc(-lo)))
                            else: cands.add(ladd(lc(hi), d, -1))
                # against the linear expression it had on side a
                la, lb = ma[s], mb[s]
                if not widen:
                    for l in (la, lb):
                        if l[1] and all(x in common for x, _ in l[1]):
                            cands.add(ladd(ls(s), l, -1)); cands.add(ladd(l, ls(s), -1))
                    for l, inv, st in ((la, inv_a, a), (lb, inv_b, b)):
                        if not l[1] or len(l[1]) > 2 or all(x in common for x, _ in l[1]): continue
                        opts = [lc(l[0])]
                        for x, c in l[1]:
                            reps = [r for r in inv.get(x, []) if lsyms(r) != [s]][:2]
                            if x in common: reps.append(ls(x))
                            opts = [ladd(o, r, c) for o in opts for r in reps]
                        for o in opts[:4]:
                            if s not in lsyms(o): cands.add(ladd(ls(s), o, -1)); cands.add(ladd(o, ls(s), -1))
            if self.rel_join:
                # facts about the very sum that became a symbol of its own
                for s in news:
                    for l, st in ((ma[s], a), (mb[s], b)):
                        if len(l[1]) < 2: continue
                        for f in st.facts:
                            for k in (1, -1):
                                g = ladd(f, l, k)
                                if len(g[1]) < len(f[1]) and all(x in common for x, _ in g[1]): cands.add(ladd(g, ls(s), -k))
            if self.join_zones:
                vals = {v[1][1][0][0] for v in list(J.mem.values()) + (list(J.env.values()) if self.zone_syms else []) if v[0] == "L" and len(v[1][1]) == 1 and v[1][0] == 0 and v[1][1][0][1] == 1} | set(self.zone_syms)
                for s in news:
                    for y in vals:
                        if y != s:
                            cands.add((-1, tuple(sorted(((y, 1), (s, -1)))))); cands.add((0, tuple(sorted(((y, 1), (s, -1))))))
                            if self.zone_syms: cands.add((-1, tuple(sorted(((y, -1), (s, 1)))))); cands.add((0, tuple(sorted(((y, -1), (s, 1))))))
            for f in list(cands):
                if not f[1] or len(f[1]) == 1: continue
                fa = lsub(f, ma); fb = lsub(f, mb)
                if self.prove_ge(a, fa) and self.prove_ge(b, fb):
                    if self.lo(J, f) < 0: J.facts.add(f)
            for f in a.ne | b.ne:
                opts = [f]
                for g in opts:
                    if all(s in self.ibnd or s in J.bnd for s, _ in g[1]):
                        if self.decide(a, ("ne", g)) is True and self.decide(b, ("ne", g)) is True: J.ne.add(g)
            for st, inv, mm, other, mo in ((a, inv_a, ma, b, mb), (b, inv_b, mb, a, ma)):
                for f in st.ne:
                    if len(f[1]) <= 2:
                        opts = [lc(f[0])]
                        for s, c in f[1]:
                            reps = list(inv.get(s, []))
                            if s in self.ibnd or (s in a.bnd and s in b.bnd): reps.append(ls(s))
                            opts = [ladd(o, r, c) for o in opts for r in reps[:2]]
                        for g in opts:
                            if g[1] and self.decide(other, ("ne", lsub(g, mo))) is True: J.ne.add(norm_eq(g))
        return J

    thresholds = (0, 1, 2, 255, 1 << 16, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)

    def join_data(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
            return (a[0], None, None)
        return None

    # ------------------------------------------------------------ helpers for rules
    def origin(self, st, v):
        """Sym object of a single-symbol value"""
        if v[0] == "L" and len(v[1][1]) == 1 and v[1][0] == 0 and v[1][1][0][1] == 1:
            return self.syms[v[1][1][0][0]]
        if v[0] == "P" and v[1][0] == "s" and not v[2]:
            return self.syms[v[1][1]]
        return None

    def pathstr(self, ptr):
        if ptr[0] != "P": return "?"
        root = ptr[1]
        if root[0] == "s":
            sy = self.syms[root[1]]
            r = "*" + (self.pathstr(sy.data[2]) if sy.kind == "load" and sy.data and len(sy.data) > 2 and sy.data[2] else sy.kind)
        elif root[0] == "arg": r = self.f.args[root[1]][1] or "arg%d" % root[1]
        elif root[0] == "g": r = root[1]
        else: r = root[0]
        for s in ptr[2]:
            if s[0] == "f":
                if s[2]: r += "." + s[2]
            elif s[0] == "x": r += "[%s]" % self.linstr(s[1])
        return r

    def linstr(self, l):
        if not l[1]: return str(l[0])
        out = []
        for s, c in l[1]:
            sy = self.syms[s]
            n = sy.kind
            if sy.kind == "load" and sy.data and sy.data[0]: n = sy.data[0]
            elif sy.kind == "arg": n = sy.data[1] or "arg%d" % sy.data[0]
            out.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + n)
        r = "+".join(out).replace("+-", "-")
        if l[0]: r += "%+d" % l[0]
        return r
