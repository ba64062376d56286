"""C12: log files rotate exactly when configured, and no line is lost to a rotation."""
import ctx
from devices import *

EXPLANATION = ("Path-sensitive abstract interpretation of handing one record to a file device, for symbolic size, times, limits and settings: every path that closes an open file has established the size condition "
               "(limit > 0, backups > 0, current size + record length > limit), or, with daily rotation, that the record's time lies outside the day the file was opened in, or, with hourly and no daily rotation, outside that hour; "
               "every path that keeps writing to the file it found open has established that none of the three holds. Files are opened for appending; after a rotation by size the old file is moved to the backups first; "
               "after a successful open the size is set from what opening reported and day and hour from the start of the day and hour of the record's own time; and every path ends with the record written to an open file or counted as lost. "
               "The backup step itself moves a file only after the name it moves it to was freed, and deletes only beyond the configured number of backups.")
RULE = "close => S or D or H; write without close => not S, not D, not H; open => append mode, bookkeeping set; rename(p, q) only after q was rolled over"
ASSUMPTIONS = ["device settings do not change while one record is handled", "mktime and localtime_r compute what the C library documents"]

DAY, HOUR = 24 * 3600, 3600


def and3(xs):
    if any(x is False for x in xs): return False
    return True if all(x is True for x in xs) else None


def or3(xs):
    if any(x is True for x in xs): return True
    return False if all(x is False for x in xs) else None


class Rotate(DevPath):
    """extra = (S, D, H, initial handle state, closed by this record, bookkeeping set after the last open, backups made, frozen, fields of broken-down times that are zero)"""
    max_disjuncts = 4

    def start(self): return (None, None, None, None, False, (), False, False, ())

    def fx(self, st, i): return st.auto[3][i]
    def setx(self, st, i, v): self.put(st, 3, st.auto[3][:i] + (v,) + st.auto[3][i + 1:])

    def dstat(self, st, name):
        def ok(p):
            ix = [i for f, x in p if f == "Channel.device_log_fields_" for i, *_ in x]
            c = index_of(p, "SHMLogger.channels_")
            if c is not None and not self.same(st, c, self.ch): return False
            if not ix: return False
            d, e = (ix[0], ix[1]) if len(ix) > 1 else (ix[0], ZERO)
            return isconst(e) and self.LOG.get(e[0]) == name and self.same(st, d, self.dev)
        return self.memlin(st, "Channel.device_log_fields_", ok)

    def look(self, st):
        if self.fx(st, 7): return
        dec = lambda l, c=0: None if l is None else self.decide(st, ("ge", ladd(l, lc(c))))
        lim, back, cur, n = self.cfg(st, "FILE_LIMIT_SIZE"), self.cfg(st, "FILE_ROLLBACK"), self.dstat(st, "CUR_FILE_SIZE"), self.rec(st, "content_len_")
        over = None
        if lim is not None and cur is not None and n is not None: over = dec(ladd(ladd(cur, n), lim, -1), -1)
        S = and3([dec(lim, -1), dec(back, -1), over])
        ts = self.rec(st, "timestamp_"); day, hour = self.dstat(st, "CUR_FILE_CREATE_DAY"), self.dstat(st, "CUR_FILE_CREATE_HOUR")
        nz = lambda l: None if l is None else self.decide(st, ("ne", l))
        daily, hourly = nz(self.cfg(st, "FILE_ROLLDAILY")), nz(self.cfg(st, "FILE_ROLLHOURLY"))

        def outside(b, span):
            if ts is None or b is None: return None
            return or3([dec(ladd(b, ts, -1), -1), dec(ladd(ts, b, -1), -span)])
        D = and3([daily, outside(day, DAY)])
        H = and3([None if daily is None else not daily, hourly, outside(hour, HOUR)])
        for i, v in enumerate((S, D, H)):
            if v is not None and self.fx(st, i) is None: self.setx(st, i, v)

    def handle(self, st, ins, what, meth, ix, args):
        if what != "file": return
        if st.auto[1] != "?" and self.fx(st, 3) is None: self.setx(st, 3, st.auto[1])
        if meth == "close":
            self.look(st)
            if st.auto[1] == "closed": return
            self.hit("closings of a file")
            self.res.check(any(self.fx(st, i) is True for i in range(3)), "close/reason", ins.where(), "a file is closed although neither its size limit nor its day or hour is known to be over (size %s, day %s, hour %s)" % self.words(st))
            self.setx(st, 4, True)
        elif meth == "open":
            self.look(st)
            self.res.check(st.auto[1] == "closed", "open/while-open", ins.where(), "a file is opened although the former one is not known to be closed")
            mode = next((self.cstr(a) for a in args[2:] if a[0] == "P" and a[1][0] == "g"), None)
            self.hit("openings of a file")
            self.res.check(mode is not None and mode.startswith("a"), "open/mode", ins.where(), "a log file is not opened for appending (mode %s): what it held is lost" % mode)
            if self.fx(st, 0) is True and self.fx(st, 4):
                self.res.check(self.fx(st, 6), "open/backup", ins.where(), "after reaching its size limit the file is opened again without having been moved to the backups")
            self.setx(st, 5, ()); self.setx(st, 7, True)
        elif meth == "write":
            self.look(st)
            self.hit("writes to a file")
            self.res.check(st.auto[1] == "open", "write/not-open", ins.where(), "a record is written although the file is not known to be open")
            if not self.fx(st, 4) and not self.count(st, "open"):
                self.res.check(all(self.fx(st, i) is False for i in range(3)), "write/overdue", ins.where(), "a record is written to the current file although it is not known that no rotation is due (size %s, day %s, hour %s)" % self.words(st))
            if self.count(st, "open"):
                have = {k for k, _ in self.fx(st, 5)}
                for k in ("CUR_FILE_SIZE", "CUR_FILE_CREATE_DAY", "CUR_FILE_CREATE_HOUR"):
                    self.res.check(k in have, "write/" + k, ins.where(), "a newly opened file is used without having set its %s" % k)

    def words(self, st):
        return tuple({None: "not looked at", True: "over", False: "not over"}[self.fx(st, i)] for i in range(3))

    def cstr(self, a):
        g = self.m.globals.get(a[1][1])
        if g and "init" in g and g["init"][0] == "str":
            h = g["init"][1]
            return bytes.fromhex(h).split(b"\0")[0].decode("latin1")
        return None

    def on_branch(self, st, ins, cond, taken):
        super().on_branch(st, ins, cond, taken)
        if st.auto[1] != "?" and self.fx(st, 3) is None: self.setx(st, 3, st.auto[1])

    def on_call(self, st, ins, name, args):
        if name.endswith("FileHandler::rollback"):
            self.hit("backups")
            self.setx(st, 6, True)
            self.look(st)
            nums = [self.strip(st, self.lin(st, a)) for a in args if a[0] in ("L", "B", "C")]; back = self.cfg(st, "FILE_ROLLBACK")
            if len(nums) == 2 and back is not None:
                more = self.decide(st, ("ge", ladd(back, lc(-1))))
                good = self.same(st, nums[1], self.strip(st, back)) if more else more is False and self.decide(st, ("ge", ladd(nums[1], lc(-1))))
                self.res.check(self.same(st, nums[0], lc(1)) and good, "backup/number", ins.where(), "the backups are not moved from number 1 up to the configured number of backups (%s, %s)" % tuple(self.linstr(x) for x in nums))
        if name == "mktime" and args and args[0][0] == "P":
            z = tuple(self.tmzero(st, args[0], o) for o in ("tm_sec", "tm_min", "tm_hour"))
            kind = {(True, True, True): "day", (True, True, False): "hour"}.get(z)
            s = self.fresh(st, "mktime", kind, ins, -(1 << 62), 1 << 62)
            return [(st, ("L", ls(s)))]
        if name.endswith("FileHandler::time_to_tm"):
            nums = [a[1] for a in args if a[0] == "L"]
            ts = self.rec(st, "timestamp_")
            self.res.check(bool(nums) and ts is not None and self.same(st, nums[0], ts), "open/time", ins.where(), "the time a file is named and dated by is not the record's time")
        return super().on_call(st, ins, name, args)

    def setlog(self, st, ins, c, d, e, v):
        what = self.which(st, e)
        if what in ("CUR_FILE_SIZE", "CUR_FILE_CREATE_DAY", "CUR_FILE_CREATE_HOUR"):
            self.look(st); self.setx(st, 7, True)
            l = self.lin(st, v)
            good = None
            if self.count(st, "open") and st.auto[1] == "open":
                s = self.source(st, l)
                if what == "CUR_FILE_SIZE": good = s is not None and s.kind == "opened"
                else: good = s is not None and s.kind == "mktime" and s.data == what[-4:].strip("_").lower()
                self.res.check(good, "set/" + what, ins.where(), "%s of a new file is not set from %s" % (what, "the size opening reported" if what == "CUR_FILE_SIZE" else "the start of the record's " + what[-4:].strip("_").lower()))
                self.setx(st, 5, tuple(sorted(set(self.fx(st, 5)) | {(what, True)})))
            elif what != "CUR_FILE_SIZE":
                self.res.bad("set/" + what, ins.where(), "%s is changed without a new file having been opened" % what)

    def source(self, st, l):
        for _ in range(6):
            l = self.strip(st, l)
            if len(l[1]) != 1 or l[0]: return None
            sy = self.syms[l[1][0][0]]
            if sy.kind in ("opened", "mktime"): return sy
            return None
        return None

    def on_ret(self, st, ins, v):
        if st.auto[2] != "FILE": return
        self.hit("exits")
        self.res.check(self.count(st, "write") == 1 and not self.count(st, "failed") or self.count(st, "lose") >= 1, "exit/lost", ins.where(), "a record is neither written nor counted as lost")
        if self.fx(st, 4): self.hit("exits after a rotation")

    def counter(self, st, ins, c, d, e, amt):
        if self.which(st, e) == "TOTAL_LOSE_LINE": self.ev(st, "lose")
        if self.which(st, e) == "CUR_FILE_SIZE": self.look(st); self.setx(st, 7, True)

    # fields of a broken-down time known to be zero: extra[8] = ((object, field), ...)
    def tmfield(self, p):
        if p[0] != "P" or p[1][0] != "al": return None
        f = [s for s in p[2] if s[0] == "f"]
        if not f: return "tm_sec" if not p[2] else None
        return f[-1][2] if f[-1][1].split(".")[-1] == "tm" else None

    def on_store(self, st, ins, p, v):
        f = self.tmfield(p)
        if f:
            z = set(self.fx(st, 8)) - {(p[1], f)}
            if v[0] == "L" and v[1] == ZERO: z.add((p[1], f))
            if z != set(self.fx(st, 8)): self.setx(st, 8, tuple(sorted(z)))
        super().on_store(st, ins, p, v)

    def on_memop(self, st, ins, name, args, n):
        if args and args[0][0] == "P":
            z = tuple(x for x in self.fx(st, 8) if x[0] != args[0][1])
            if len(args) > 1 and args[1][0] == "P" and name.startswith("llvm.memcpy"): z = tuple(sorted(set(z) | {(args[0][1], f) for r, f in self.fx(st, 8) if r == args[1][1]}))
            if z != self.fx(st, 8): self.setx(st, 8, z)
        super().on_memop(st, ins, name, args, n)

    def tmzero(self, st, p, f): return (p[1], f) in self.fx(st, 8)


class Backup(Base):
    """auto = the string objects whose file name is known to be free"""
    def __init__(self, m, res):
        super().__init__(m); self.res = res; self.n = {}

    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def setup(self, st): st.auto = ()
    def key(self, st): return st.auto
    def obj(self, a): return a[1] if a[0] == "P" else None
    def free(self, st, r, yes):
        s = set(st.auto); (s.add if yes else s.discard)(r); st.auto = tuple(sorted(s, key=repr))

    def on_call(self, st, ins, name, args):
        meth = name.split("[abi")[0].rsplit("::", 1)[-1]
        if name.startswith("std::") and "basic_string" in name and args and args[0][0] == "P":
            if meth in ("c_str", "data"): return [(st, ("P", args[0][1], (("f", "std", "chars", 0, 0),)))]
            if not ins.x.get("ro") and meth not in ("length", "size", "empty", "at", "find", "rfind", "substr", "find_last_not_of", "find_last_of", "operator[]", "back", "front", "~basic_string", "compare"): self.free(st, self.obj(args[0]), False)
            return super().on_call(st, ins, name, args) if hasattr(super(), "on_call") else None
        nums = [a for a in args if a[0] in ("L", "B", "C")]
        if ins.x.get("fn") == self.f.key:
            self.hit("recursive steps")
            o = [self.obj(a) for a in args if a[0] == "P"]
            d = [self.lin(st, a) for a in nums]
            mine = [a[1] for a in self.argv if a[0] == "L"]
            self.res.check(len(d) == 2 and len(mine) == 2 and self.same(st, d[0], ladd(mine[0], lc(1))) and self.same(st, d[1], mine[1]), "backup/step", ins.where(), "the next backup is not handled with the next number and the same limit")
            if o: self.free(st, o[-1], True)
            return None
        if name == "rename":
            self.hit("renames")
            p, q = self.obj(args[0]), self.obj(args[1])
            self.res.check(p is not None and p in self.paths, "backup/rename-from", ins.where(), "something else than the file itself is renamed")
            self.res.check(q is not None and q != p and q in st.auto, "backup/overwrites", ins.where(), "a file is moved to a name that was not freed first: the backup there is lost")
            return None
        if name in ("remove", "unlink") or name.endswith("FileHandler::remove_file"):
            self.hit("deletions")
            mine = [a[1] for a in self.argv if a[0] == "L"]
            self.res.check(len(mine) == 2 and self.decide(st, ("ge", ladd(ladd(mine[0], mine[1], -1), lc(-1)))) is True, "backup/delete", ins.where(), "a file is deleted although it is not beyond the configured number of backups")
            return None
        return None


def run(res, config):
    m = ctx.module(config, keep=("^FNLog::EnterProcDevice$",))
    f = writer(m)
    e = Rotate(m, res, "device"); e.run(f); res.fns.add(f.name)
    for k in ("closings of a file", "openings of a file", "writes to a file", "exits", "exits after a rotation"): res.need(e.n.get(k, 0), k)
    m = ctx.module(config)
    for f in m.fns_rx("^FNLog::FileHandler::rollback$"):
        e = Backup(m, res); e.f = f; e.ibnd = {}
        if not any(i.x.get("fn") == f.key for b in f.blocks for i in b): res.notes.append("backup step is not recursive: not analysed"); continue
        av = e.make_args(f, new_state()); e.argv = av
        e.paths = [a[1] for a in av if a[0] == "P"]
        e.run(f, args=av); res.fns.add(f.name)
        for k in ("recursive steps", "renames", "deletions"): res.need(e.n.get(k, 0), k)
