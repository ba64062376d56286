"""C24: a record goes to the writer of its device's kind, once, with that device's own handle."""
import ctx
from devices import *

EXPLANATION = ("Path-sensitive abstract interpretation of handing one record to one device, for a symbolic channel number, device number and kind, with all writers expanded: each operation on a file, socket or the screen happens only where the "
               "path has established that kind of device; the index of the handle is exactly channel * devices-per-channel + device; what is written is this record's text with this record's length; and each path ends having written the record "
               "exactly once (or counted it as lost), to nothing at all for the other kinds.")
RULE = "kind established = kind of the operation; handle index == channel * MAX_DEVICE_SIZE + device; written = (content_, content_len_); one write per path"
ASSUMPTIONS = ["a device and a channel store their own numbers (established by the parser and by hot update: C15, C16)"]


class Route(DevPath):
    def handle(self, st, ins, what, meth, ix, args):
        want = "FILE" if what == "file" else "UDP"
        self.hit("%s handle operations" % what)
        k = self.kind(st)
        self.res.check(k == want, "%s/%s/kind" % (what, meth), ins.where(), "a %s is used for a device not known to be of that kind%s" % (what, " (%s)" % k if k else ""), what="%s %s only for %s devices" % (what, meth, want))
        own = ladd(lmul(self.ch, self.NDEV), self.dev)
        self.res.check(self.same(st, ix, own), "%s/%s/other-handle" % (what, meth), ins.where(), "the %s of another device is used (number %s)" % (what, self.linstr(ix)), what="%s %s on handle channel*%d+device" % (what, meth, self.NDEV))
        if meth == "write":
            n = self.rec(st, "content_len_")
            txt = [a for a in args[1:] if a[0] == "P"]; num = [self.lin(st, a) for a in args[1:] if a[0] in ("L", "B", "C")]
            self.res.check(len(txt) == 1 and self.text_of_record(txt[0]) and all(isconst(i) and i[0] == 0 for f, ix2 in ppath(txt[0]) if f == "LogData.content_" for i, *_ in ix2) and n is not None and any(self.same(st, x, n) for x in num),
                           what + "/other-text", ins.where(), "something else than this record's text and length is written")

    def screen(self, st, ins, args):
        self.hit("screen outputs")
        k = self.kind(st)
        self.res.check(k == "SCREEN", "screen/kind", ins.where(), "a record is printed on the screen for a device not known to be a screen%s" % (" (%s)" % k if k else ""))

    def on_ret(self, st, ins, v):
        k = self.kind(st); w = self.count(st, "write"); s = self.count(st, "screen"); lose = self.count(st, "lose")
        self.hit("exits")
        if k is None: self.res.bad("exit/kind", ins.where(), "a path ends without having looked at the device's kind"); return
        self.hit("exits " + k)
        self.res.check(w + s <= 1, "exit/twice", ins.where(), "a record is written twice to one device")
        if k == "SCREEN": self.res.check(s == 1, "exit/screen", ins.where(), "a record for a screen is not printed")
        elif k in ("FILE", "UDP"): self.res.check(w == 1 or lose > 0, "exit/" + k.lower(), ins.where(), "a record for a %s device is neither written nor counted as lost" % k.lower())
        else: self.res.check(w + s == 0, "exit/none", ins.where(), "a record is written for a device that writes nothing")

    def counter(self, st, ins, c, d, e, amt):
        if self.which(st, e) == "TOTAL_LOSE_LINE": self.ev(st, "lose")
        if self.which(st, e) == "TOTAL_WRITE_LINE": self.ev(st, "line")


def run(res, config):
    m = ctx.module(config, keep=("^FNLog::EnterProcDevice$",))
    f = writer(m)
    e = Route(m, res, "device"); e.run(f); res.fns.add(f.name)
    for k in ("file handle operations", "udp handle operations", "screen outputs", "exits SCREEN", "exits FILE", "exits UDP", "exits EMPTY", "exits other"): res.need(e.n.get(k, 0), k)
