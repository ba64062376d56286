"""C18: the logger's storage is released exactly once, by the way it was obtained."""
import ctx
from shm import *

EXPLANATION = ("Ownership typestate by path-sensitive abstract interpretation of every function that obtains, releases or records the logger's storage (found by scanning the program for shmget, shmat, shmdt, shmctl, allocation of the storage's size and stores of Logger.shm_ and Logger.shm_key_): "
               "every way out of them is followed with every failure of the calls. Invariant between calls: the storage is absent, or was allocated and the key is not positive, or was attached and the key is positive.")
RULE = "release by the call that matches how it was obtained (decided by the key), once, before it is forgotten; no use after release; nothing attached, allocated or created is left behind on any exit; key changes only while there is no storage; result 0 <=> storage"
ASSUMPTIONS = ["shmat returns a valid address or -1", "allocation failure (an exception of operator new) is not followed", "one logger's storage is not released by another logger"]


class Dtor(Storage):
    def unloading(self, st, ins):
        l = self.memlin(st, "Logger.logger_state_")
        self.chk("C18", l is not None and self.same(st, l, lc(self.m.enum("LOGGER_STATE_UNINIT"))), "running", ins, "the storage is released although the logger is not known to have stopped")


def run(res, config):
    m = ctx.module(config, expand=("^FNLog::ResetSHMLogger$", "^FNLog::InitLogger$"))
    tot = {}
    done = set()

    def go(f, cls=Storage, fresh=False, ends=None, pre=None):
        e = cls(m, res, f.name.replace("FNLog::", ""), "C18"); e.fresh_logger = fresh; e.ends = ends
        if pre: e.setup = lambda st: (Storage.setup(e, st), pre(e, st))
        e.run(f); res.fns.add(f.name); done.add(f.name)
        for k, n in e.n.items(): tot[k] = tot.get(k, 0) + n
        res.need(e.n.get("exits", 0), "exits of " + f.name)

    def nothing(e, st):
        p = ("P", ("arg", 0), (e.fieldstep("FNLog::Logger", "shm_"),)); st.mem[e.memkey(p)] = ("P", ("null",), ())
    go(m.fn("FNLog::LoadSharedMemory"), ends="load", pre=nothing)
    go(m.fn("FNLog::UnloadSharedMemory"), ends="unload")
    go(m.fn("FNLog::Logger::~Logger"), cls=Dtor, ends="unload")
    go(m.fn("FNLog::Logger::Logger"), fresh=True, ends="unload")
    for f in m.fns.values():
        if f.blocks and f.name not in done and not re.match("vroot_(un)?load_storage", f.name) and touches(f): go(f)
    for k, n in (("segments looked up", 2), ("attached", 2), ("allocated", 1), ("removed", 2), ("released", 2), ("storage set", 3), ("key set", 1), ("loads", 1), ("unloads", 1)): res.need(tot.get(k, 0), k, n)
