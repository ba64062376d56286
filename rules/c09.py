"""C09: stopping drains: threads are joined before queues are cleared and handles closed."""
import ctx
from life import *

EXPLANATION = ("Path-sensitive abstract interpretation of StopLogger (and the failure path of StartLogger) with everything expanded: a thread is waited for only after it was asked to end; a sweep over all channels decides when every thread has ended; "
               "queues are changed and handles closed only after that. The dispatch loop of an asynchronous channel returns only after it has read that its channel is no longer running and, after that reading, has found the queue empty. "
               "The destructor releases the storage only after it has read that the logger is stopped.")
RULE = "queue change or handle closing in stop => every channel's thread ended; thread returns => stop seen, then queue seen empty; storage released => state read UNINIT"
ASSUMPTIONS = ["records that a producer has reserved but not published when its channel is stopped are given up (documented behaviour of stopping)"]


def run(res, config):
    m = ctx.module(config, eh=True)
    for f, c in (("vroot_start", Start), ("vroot_stop", Stop)):
        e = c(m, res, f[6:], "C09"); e.run(m.fn(f)); res.fns.add(f)
        for k, n in e.n.items(): res.count(k, n)
        res.need(e.n.get("threads joined", 0), "threads joined in " + f[6:])
        if c is Stop:
            res.need(e.n.get("queue stores", 0), "queue changes in stop"); res.need(e.n.get("handles closed", 0), "handles closed in stop")
    m = ctx.module(config, keep=ctx.DEVICES)
    e = Worker(m, res, "C09"); f = m.fn("FNLog::EnterProcChannel"); e.run(f); res.fns.add(f.name)
    res.need(e.n.get("returns", 0), "returns of the dispatch loop")
    m = ctx.module(config, expand=("^FNLog::Logger::",), keep=("^FNLog::StopLogger$",))
    e = End(m, res); f = m.fn("vroot_logger_dtor"); e.run(f); res.fns.add(f.name)
    res.need(e.n, "releases of the storage in the destructor")
