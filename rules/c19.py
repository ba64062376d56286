"""C19: queries and setters are safe for any number, in any state of the logger."""
import ctx
from common import *

EXPLANATION = ("Abstract interpretation of every query and setter with unconstrained numbers and an arbitrary logger: each access to the logger's storage is made only where the storage is known to be there, "
               "each array index on it is proved to lie inside its array and to name an existing channel or device; a query or setter that makes no access does so only where the path has established that the channel, "
               "device or field does not exist, and a query then returns 0; otherwise it returns the value read, and a setter stores the value given.")
RULE = "access => storage present, 0 <= index < array length, channel < channel count, device < device count; no access => number does not exist and result 0"
ASSUMPTIONS = ["the counts of channels and devices in the storage lie within their arrays (C13, C17)", "the storage is not released while a query runs (the caller owns the logger)"]


FIELDS = re.compile(r"^(Channel|Device)\.(config_fields_|\w*log_fields_)$")


class Acc(Base):
    sizes_known = True
    max_disjuncts = 4
    join_zones = True
    restart_loops = True

    def __init__(self, m, res, w, batch, getter):
        super().__init__(m); self.res = res; self.w = w; self.batch = batch; self.getter = getter; self.n = 0; self.exits = 0

    def key(self, st): return st.auto
    def setup(self, st): st.auto = (False, False)       # accessed, seen not to exist

    def on_access(self, st, ins, p, size, write):
        if p[0] != "P": return
        r = p[1]
        if r[0] == "null": self.res.bad(self.w + "/null", ins.where(), "the storage is used where it is known not to be there"); return
        pp = ppath(p)
        if not any(f.startswith(("SHMLogger.", "Channel.", "Device.")) for f, _ in pp): return
        if r[0] == "s":
            self.res.check(self.decide(st, ("ne", ls(r[1]))) is True, self.w + "/no-storage", ins.where(), "the logger's storage is used without knowing that there is one")
        for s in p[2]:
            if s[0] != "x" or s[3] <= 0: continue
            self.n += 1
            ok = self.prove_ge(st, s[1]) and self.prove_ge(st, ladd(lc(s[3] - 1), s[1], -1))
            self.res.check(ok, self.w + "/index", ins.where(), "an array of %d entries is accessed with the unchecked number %s" % (s[3], self.linstr(s[1])), what="%s: index %s inside %d entries" % (self.w, self.linstr(s[1]), s[3]))
        c = index_of(pp, "SHMLogger.channels_"); d = index_of(pp, "Channel.devices_")
        if c is not None:
            n = self.memlin(st, "SHMLogger.channel_size_")
            if pp[-1][0] != "Channel.device_size_":
                self.res.check(n is not None and self.prove_ge(st, ladd(ladd(n, c, -1), lc(-1))), self.w + "/no-channel", ins.where(), "a channel number is used without knowing that the channel exists")
        if d is not None:
            n = self.memlin(st, "Channel.device_size_", lambda q: self.same(st, index_of(q, "SHMLogger.channels_") or ZERO, c or ZERO))
            self.res.check(n is not None and self.prove_ge(st, ladd(ladd(n, d, -1), lc(-1))), self.w + "/no-device", ins.where(), "a device number is used without knowing that the device exists")
        if any(FIELDS.match(f) for f, _ in pp):
            st.auto = (True, st.auto[1])
            if not self.batch:
                nums = [a[1] for a in self.argv if a[0] == "L"]
                if not self.getter: nums = nums[:-1]
                got = [i for f, ix in pp for i, *_ in ix]
                kind = next(f for f, _ in pp if FIELDS.match(f))
                self.res.check(kind == self.kind and self.right(st, got, nums), self.w + "/other-entry", ins.where(), "another entry than the one asked for is accessed (%s %s)" % (kind, ", ".join(self.linstr(x) for x in got)))

    def right(self, st, got, nums):
        got = [g for g in got]; i = 0
        for n in nums:          # a zero index may have been dropped from the path
            while i < len(got) and got[i] == ZERO and not self.same(st, n, ZERO): i += 1
            if i < len(got) and (self.same(st, got[i], n) or self.same(st, got[i], self.uns(st, n, 32, self.f.blocks[0][0]))): i += 1
            elif not self.same(st, n, ZERO): return False
        return all(self.same(st, g, ZERO) for g in got[i:])

    def on_store(self, st, ins, p, v):
        if self.batch or p[0] != "P": return
        if any(f.endswith("config_fields_") for f, _ in ppath(p)):
            l = self.lin(st, v); a = self.argv[-1]
            self.res.check(a[0] == "L" and self.same(st, l, a[1]), self.w + "/other-value", ins.where(), "a setter stores another value than the one given")

    def on_atomic(self, st, ins, kind, p, vals, res):
        if kind == "store" and vals: self.on_store(st, ins, p, vals[0])

    def gone(self, st):
        if st.auto[1]: return True
        shm = self.memlin(st, "Logger.shm_")
        if shm is not None and self.decide(st, ("eq", shm)) is True: return True
        nums = [a[1] for a in self.argv if a[0] == "L"]
        if not self.getter: nums = nums[:-1]
        f = nums[-1]; fu = self.uns(st, f, 32, self.f.blocks[0][0])
        if self.prove_ge(st, ladd(fu, lc(-self.maxid))) or self.prove_ge(st, ladd(f, lc(-self.maxid))) or self.prove_ge(st, ladd(lneg(f), lc(-1))): return True
        for x, cl in zip(nums[:-1], ("SHMLogger.channel_size_", "Channel.device_size_")):
            n = self.memlin(st, cl)
            if self.prove_ge(st, ladd(lneg(x), lc(-1))): return True
            if n is not None and self.prove_ge(st, ladd(x, n, -1)): return True
        return False

    def on_branch(self, st, ins, cond, taken):
        if not self.batch and self.gone(st): st.auto = (st.auto[0], True)

    def on_ret(self, st, ins, v):
        if self.batch: return
        self.exits += 1
        if not st.auto[0]:
            self.res.check(self.gone(st), self.w + "/refuses-existing", ins.where(), "an existing channel, device or field is refused")
            if self.getter:
                z = self.lin(st, v) if v is not None else None
                self.res.check(z is not None and self.same(st, z, ZERO), self.w + "/not-zero", ins.where(), "a query for something that does not exist returns something else than 0")
        elif self.getter:
            l = self.lin(st, v) if v is not None else ZERO
            ok = len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1
            if ok:
                sy = self.syms[l[1][0][0]]
                ok = sy.kind in ("load", "join", "phi", "atomic") or (sy.data and "fields_" in str(sy.data))
            self.res.check(ok, self.w + "/not-read", ins.where(), "a query does not return the value read")


ROOTS = [("vroot_get_channel_log", "CHANNEL_LOG_MAX_ID", False, True, "Channel.channel_log_fields_"), ("vroot_set_channel_config", "CHANNEL_CFG_MAX_ID", False, False, "Channel.config_fields_"), ("vroot_get_device_log", "DEVICE_LOG_MAX_ID", False, True, "Channel.device_log_fields_"),
         ("vroot_set_device_config", "DEVICE_CFG_MAX_ID", False, False, "Device.config_fields_"), ("vroot_get_device_config", "DEVICE_CFG_MAX_ID", False, True, "Device.config_fields_"),
         ("vroot_batch_channel", "CHANNEL_CFG_MAX_ID", True, False, ""), ("vroot_batch_device", "DEVICE_CFG_MAX_ID", True, False, "")]


def run(res, config):
    m = ctx.module(config)
    for name, mx, batch, getter, kind in ROOTS:
        f = m.fn(name)
        e = Acc(m, res, name[6:], batch, getter); e.maxid = m.enum(mx); e.kind = kind
        e.run(f); res.fns.add(f.name)
        res.need(e.n, "array accesses of " + name[6:])
        if not batch: res.need(e.exits, "exits of " + name[6:])
