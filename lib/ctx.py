"""Building the analysed program from /repo's working tree, and the common parts of every check."""
import hashlib, json, os, subprocess, sys, time, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FNLOG_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
LLVM = "/usr/lib/llvm-18"
sys.path.insert(0, os.path.join(HERE, "lib"))
from ir import Module, AnalysisError

CONFIGS = {
    "default": [],
    "atomcfg": ["-DFN_LOG_USING_ATOM_CFG"],
    "small": ["-DFN_LOG_MAX_CHANNEL_SIZE=4", "-DFN_LOG_MAX_LOG_QUEUE_SIZE=64", "-DFN_LOG_MAX_LOG_SIZE=1000", "-DFN_LOG_MAX_DEVICE_SIZE=30"],
}


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise AnalysisError("%s failed (exit %d):\n%s" % (what, r.returncode, r.stdout[-3000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def irx():
    src = os.path.join(HERE, "tool", "irx.cpp")
    out = os.path.join(CACHE, "irx-" + _hash([src]))
    with Lock("irx"):
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            _run(["g++", "-O1", "-std=c++17", src, "-o", tmp, "-I" + LLVM + "/include", "-L" + LLVM + "/lib", "-lLLVM-18",
                  "-Wl,-rpath," + LLVM + "/lib", "-fno-rtti"], "building the IR extractor")
            os.rename(tmp, out)
    return out


def headers():
    d = os.path.join(REPO, "src", "include")
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith((".h", ".hpp", ".inl", ".ipp", ".cc", ".cpp")): out.append(os.path.join(r, f))
    if not out: raise AnalysisError("anchor vanished: no sources under %s" % d)
    return out


def boundaries():
    return [l.strip() for l in open(os.path.join(HERE, "lib", "boundaries.txt")) if l.strip() and not l.startswith("#")]


# the writers of the devices: kept as calls where only the queue matters (they get the record, never the queue)
DEVICES = ("^FNLog::EnterProcDevice$", "^FNLog::EnterProcOut[A-Za-z]*Device$")
_mods = {}


def module(config="default", keep=(), expand=(), eh=False, driver="driver.cpp", defs=()):
    """The analysed program: `keep` = extra functions kept as calls, `expand` = boundary patterns dropped
    (those functions are expanded into their callers)."""
    bl = [b for b in boundaries() if b not in expand] + list(keep)
    for e in expand:
        if e not in boundaries(): raise AnalysisError("internal: unknown boundary " + e)
    key = (config, tuple(bl), eh, driver, tuple(defs))
    if key in _mods: return _mods[key]
    drv = os.path.join(HERE, "harness", driver)
    x = irx()
    flags = ["-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-Wno-everything",
             "-I" + os.path.join(REPO, "src", "include")] + CONFIGS[config] + list(defs)
    hk = _hash(headers() + [drv], repr(flags))
    bc = os.path.join(CACHE, "d-" + hk + ".bc")
    js = os.path.join(CACHE, "d-" + hk + "-" + hashlib.sha256((repr(bl) + str(eh) + x).encode()).hexdigest()[:16] + ".json")
    with Lock("build"):
        if not os.path.exists(bc):
            cmd = [LLVM + "/bin/clang++"] + flags + ["-emit-llvm", "-c", drv, "-o", bc + ".tmp"]
            try: _run(cmd, "compiling the analysed program")
            except AnalysisError: _run(cmd + ["-DVERIF_MIN"], "compiling the analysed program")
            os.rename(bc + ".tmp", bc)
        if not os.path.exists(js):
            cmd = [x, bc, js + ".tmp", "--root", os.path.abspath(REPO)]
            if eh: cmd.append("--eh")
            for b in bl: cmd += ["--boundary", b]
            _run(cmd, "extracting the program representation")
            os.rename(js + ".tmp", js)
        _trim()
    m = Module(js)
    _mods[key] = m
    return m


def _trim(limit=600 << 20):
    fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("d-")]
    fs.sort(key=os.path.getmtime, reverse=True)
    tot = 0
    for f in fs:
        tot += os.path.getsize(f)
        if tot > limit:
            try: os.unlink(f)
            except OSError: pass


class Result:
    """What one rule found: obligations, violations, what was analysed."""
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.obl = []; self.viol = {}; self.fns = set(); self.counts = {}; self.notes = []; self.samples = []
        self.configs = []

    def ok(self, what):
        self.obl.append(what)

    def bad(self, key, where, msg, path=()):
        """key identifies the specific construct that fails (stable under unrelated edits)"""
        if key not in self.viol:
            self.viol[key] = (where, msg, list(path))

    def check(self, cond, key, where, msg, what=None, path=()):
        if cond: self.ok(what or key)
        else:
            self.obl.append("FAILED " + (what or key)); self.bad(key, where, msg, path)
        return cond

    def need(self, n, what, atleast=1):
        """an instance count that must not be zero: a rule that matched nothing decides nothing"""
        self.counts[what] = self.counts.get(what, 0) + n
        if n < atleast:
            raise AnalysisError("anchor vanished: %s: %d instances found, at least %d expected" % (what, n, atleast))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
