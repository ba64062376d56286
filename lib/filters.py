"""The filter clauses of channels and devices, decided path by path (used by C07 and C26)."""
from common import *


class Filter(Base):
    """auto = (phase, channel clauses, n, device clauses, flags)
    channel clauses / device clauses: tuple of None | True | False per clause; n = ('lin', index of the device being examined)"""
    CH = ("storage", "channel index", "logger running", "channel running", "channel priority", "channel category range",
          "channel identify range", "channel category mask", "channel identify mask")
    DV = ("device enabled", "device takes records", "device priority", "device category range", "device identify range",
          "device category mask", "device identify mask")

    def __init__(self, mod, res):
        super().__init__(mod)
        self.res = res
        e = mod.enum
        self.C = {k: e("CHANNEL_CFG_" + k) for k in ("PRIORITY", "CATEGORY", "CATEGORY_EXTEND", "CATEGORY_MASK", "IDENTIFY", "IDENTIFY_EXTEND", "IDENTIFY_MASK")}
        self.D = {k: e("DEVICE_CFG_" + k) for k in ("ABLE", "PRIORITY", "CATEGORY", "CATEGORY_EXTEND", "CATEGORY_MASK", "IDENTIFY", "IDENTIFY_EXTEND", "IDENTIFY_MASK")}
        self.RUN = e("LOGGER_STATE_RUNNING"); self.CRUN = e("CHANNEL_STATE_RUNNING")
        self.FATAL = e("PRIORITY_FATAL"); self.INNULL = e("DEVICE_IN_NULL")
        self.outs = [e("DEVICE_OUT_" + x) for x in ("SCREEN", "FILE", "UDP", "EMPTY")]
        self.bits = {}

    # inputs: lins (set by the subclass / caller): self.ch, self.pri, self.cat, self.idn -> functions of the state
    def chlin(self, st): return self.ch
    def inputs(self, st): return self.pri, self.cat, self.idn

    def cfgval(self, st, struct, k, ch, dev=None):
        def ok(p):
            ix = index_of(p, struct + ".config_fields_")
            if ix is None or not isconst(ix) or ix[0] != k: return False
            c = index_of(p, "SHMLogger.channels_")
            if ch is not None and c is not None and not self.same(st, c, ch): return False
            if dev is not None:
                d = index_of(p, "Channel.devices_")
                if d is None or not self.same(st, d, dev): return False
            return True
        return self.memlin(st, struct + ".config_fields_", ok)

    def rng(self, st, v, b, n):
        """n<=0 or b <= v < b+n"""
        if n is None: return None
        q = self.decide(st, ("ge", lneg(n)))
        if q is True: return True
        if v is None or b is None: return None
        inside = self.decide(st, ("and", ("ge", ladd(v, b, -1)), ("ge", ladd(ladd(ladd(b, n), v, -1), lc(-1)))))
        if inside is True: return True
        if q is False and inside is False: return False
        return None

    def mask(self, st, m, v, atoms):
        if m is None: return None
        z = self.decide(st, ("eq", m))
        if z is True: return True
        sv = self.strip(st, v) if v is not None else None
        for (am, ab, isset) in atoms:
            if self.same(st, am, self.strip(st, m)) and sv is not None and self.same(st, ab, sv):
                if isset: return True
                if z is False: return False
                # bit clear: a non-empty mask is required as well; a clear bit of an unknown mask decides nothing
        return None

    def chan(self, st, prev, atoms):
        ch = self.chlin(st); pri, cat, idn = self.inputs(st)
        out = []
        shm = self.memlin(st, "Logger.shm_")
        out.append(None if shm is None else self.decide(st, ("ne", shm)))
        size = self.memlin(st, "SHMLogger.channel_size_")
        out.append(None if size is None and self.decide(st, ("ge", ch)) is not False else
                   self.decide(st, ("and", ("ge", ch), ("ge", ladd(ladd(size, ch, -1), lc(-1))) if size is not None else ("ge", ch))))
        if size is None and out[-1] is True: out[-1] = None
        ls_ = self.memlin(st, "Logger.logger_state_")
        out.append(None if ls_ is None else self.decide(st, ("eq", ladd(ls_, lc(-self.RUN)))))
        cs = self.memlin(st, "Channel.channel_state_", lambda p: self.same(st, index_of(p, "SHMLogger.channels_") or ZERO, ch))
        out.append(None if cs is None else self.decide(st, ("eq", ladd(cs, lc(-self.CRUN)))))
        g = lambda k: self.cfgval(st, "Channel", self.C[k], ch)
        p = g("PRIORITY")
        out.append(None if p is None else self.decide(st, ("ge", ladd(pri, p, -1))))
        out.append(self.rng(st, cat, g("CATEGORY"), g("CATEGORY_EXTEND")))
        out.append(self.rng(st, idn, g("IDENTIFY"), g("IDENTIFY_EXTEND")))
        out.append(self.mask(st, g("CATEGORY_MASK"), cat, atoms))
        out.append(self.mask(st, g("IDENTIFY_MASK"), idn, atoms))
        # the state of the channel may be looked at again; every other clause is decided once
        return tuple((b if b is not None else a) if i == 3 else (a if a is not None else b) for i, (a, b) in enumerate(zip(prev, out)))

    def dev(self, st, prev, d, atoms):
        ch = self.chlin(st); pri, cat, idn = self.inputs(st)
        g = lambda k: self.cfgval(st, "Device", self.D[k], ch, d)
        out = []
        a = g("ABLE")
        out.append(None if a is None else self.decide(st, ("ne", a)))
        it = self.memlin(st, "Device.in_type_", lambda p: self.same(st, index_of(p, "Channel.devices_") or ZERO, d))
        out.append(None if it is None else self.decide(st, ("eq", ladd(it, lc(-self.INNULL)))))
        p = g("PRIORITY")
        r = None
        if p is not None and pri is not None:
            r = self.decide(st, ("ge", ladd(pri, p, -1)))
        out.append(r)
        out.append(self.rng(st, cat, g("CATEGORY"), g("CATEGORY_EXTEND")))
        out.append(self.rng(st, idn, g("IDENTIFY"), g("IDENTIFY_EXTEND")))
        out.append(self.mask(st, g("CATEGORY_MASK"), cat, atoms))
        out.append(self.mask(st, g("IDENTIFY_MASK"), idn, atoms))
        return tuple(a if a is not None else b for a, b in zip(prev, out))
