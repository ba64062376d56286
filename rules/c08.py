"""C08: starting, stopping and restarting follow one state machine and report failure."""
import ctx
from life import *

EXPLANATION = ("Path-sensitive abstract interpretation of StartLogger and StopLogger with everything they call expanded, exceptional edges included: every store of the logger's state must be made under the state lock, from a legal state established under that same lock, "
               "RUNNING only after every channel was seen running, UNINIT only after every channel's thread has ended, every channel's state is back at its start and (from CLOSING) every queue is drained and reset; what the call returns must match the state it leaves. "
               "The calls built from steps (parse and start, load and start, the default logger's) must stop at the first failed step and report it; a configuration is taken over only under the lock in the initial state. Threads change their channel's state only by the one-step NULL to RUNNING and to FINISH.")
RULE = "state store => lock held, legal predecessor known, all channels in the matching condition; return 0 <=> the state reached; failed step => non-zero result and no further step"
ASSUMPTIONS = ["allocation does not fail inside start and stop; a thread that cannot be created is an exception of its constructor", "the logger's state changes only in the functions analysed (checked: every function that stores it)"]
OPEN = ("^FNLog::(FastStart|LoadAndStart|ParseAndStart)",)


def run(res, config):
    m = ctx.module(config, eh=True)
    for f, c in (("vroot_start", Start), ("vroot_stop", Stop)):
        e = c(m, res, f[6:], "C08"); e.run(m.fn(f)); res.fns.add(f)
        for k, n in e.n.items(): res.count(k, n)
        res.need(e.n.get("state stores", 0), "state stores in " + f[6:], 2)
        res.need(e.n.get("exits", 0), "exits of " + f[6:], 2)
    # the calls made of steps
    m = ctx.module(config, expand=OPEN, keep=("^FNLog::(StartLogger|StopLogger)$",))
    for r in ("parse_and_start", "load_and_start", "default_load", "default_fast", "default_fast0", "default_debug"):
        e = Steps(m, res, r, "StartLogger"); f = m.fn("vroot_" + r); e.run(f); res.fns.add(f.name)
        res.need(e.n.get("steps", 0), "steps of " + r); res.count("exits of step calls", e.n.get("exits", 0))
    for r, exp, keep, last in (("init_file", "^FNLog::InitFromYMAL(File)?$", ("^FNLog::InitFromYMAL$",), "InitFromYMAL"), ("init_text", "^FNLog::InitFromYMAL(File)?$", (), "ParseLogger")):
        mm = ctx.module(config, expand=(exp,), keep=keep)
        e = Steps(mm, res, r, last); f = mm.fn("vroot_" + r); e.run(f); res.fns.add(f.name)
        res.need(e.n.get("steps", 0), "steps of " + r, 2)
    e = Init(mm, res, "init", "C08"); e.run(mm.fn("vroot_init_text"))
    res.need(e.n.get("changes", 0), "changes when a configuration is taken over")
    m = ctx.module(config, keep=ctx.DEVICES)
    e = Worker(m, res, "C08"); f = m.fn("FNLog::EnterProcChannel"); e.run(f); res.fns.add(f.name)
    res.count("channel state changes by its thread", e.n.get("channel state changes", 0))
    out = writers(m); res.ok("every store of the logger's state lies in starting, stopping or construction")
    for name, i in out.items(): res.bad("writer/" + name, i.where(), "%s stores the logger's state: only starting, stopping and construction do" % name)
