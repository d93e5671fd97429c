"""Shared machinery of the CGMF runtime monitors.

Builds the code under /repo's current working tree (never a copy), runs it under
generated workloads, and turns oracle verdicts into VIOLATION / KNOWN-FINDING
lines and an evidence file.
"""
import os, sys, json, time, hashlib, subprocess, glob, fcntl, shutil, tempfile, threading, random, math, atexit

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CGMF_REPO", "/repo")
BUILD = os.environ.get("CGMF_VERIF_BUILD", os.path.join(HERE, "build"))
DATA = REPO + "/data/"
sys.path.insert(0, os.path.join(HERE, "lib"))
import levels as levmod

NPROC = max(1, min(8, os.cpu_count() or 1))
SF = [94238, 94240, 94242, 94244, 98252, 98254]
NI = [92233, 92234, 92235, 92238, 93237, 94239, 94241]

FLAGS = {
    "opt": ("g++", ["-O2"]),
    "san": ("clang++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow"]),
    "dbg": ("g++", ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"]),
}
DRV_LEVELS = [  # what the driver may use, richest first
    ["-DCGMF_MONITOR", "-DDRV_KERNELS"],
    ["-DCGMF_MONITOR"],
    ["-DDRV_KERNELS"],
    [],
    ["-DDRV_PUBLIC_ONLY", "-DCGMF_MONITOR"],
    ["-DDRV_PUBLIC_ONLY"],
]


class BuildError(Exception):
    pass


def _digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def _sources():
    src = sorted(glob.glob(REPO + "/libcgmf/src/*.cpp"))
    inc = sorted(glob.glob(REPO + "/libcgmf/include/*"))
    inc += sorted(glob.glob(REPO + "/libcgmf/src/*.h"))
    return src, [p for p in inc if os.path.isfile(p)]


def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _prune(keep):
    """keep only the newest build directories"""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("b-")]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def _compile(cxx, flags, defs, d, src, extra_inc=()):
    """compile all library sources; returns list of objects or raises BuildError"""
    os.makedirs(d, exist_ok=True)
    with open(d + "/cgmf_config.h", "w") as f:
        f.write('#define INSTALL_DATADIR "/nonexistent"\n#define BUILD_DATADIR "%s"\n' % (REPO + "/data"))
    objs, jobs = [], []
    for s in src:
        o = d + "/" + os.path.basename(s) + ".o"
        objs.append(o)
        jobs.append([cxx] + flags + defs + ["-std=c++14", "-w", "-I" + d, "-I" + REPO + "/libcgmf/include"] + list(extra_inc) + ["-c", s, "-o", o])
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    errs = []
    sem = threading.Semaphore(NPROC)
    def one(j):
        with sem:
            r = subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                errs.append(r.stdout.decode(errors="replace")[-1500:])
    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        raise BuildError(errs[0])
    return objs


class Build:
    def __init__(self, path, features):
        self.path = path
        self.features = features          # set of names
    def has(self, f):
        return f in self.features


def build(kind="opt"):
    """driver linked with the library of the current tree; kind in FLAGS"""
    cxx, flags = FLAGS[kind]
    src, inc = _sources()
    drv = [HERE + "/drv/drv.cpp"] + sorted(glob.glob(HERE + "/drv/*.inc"))
    key = _digest(src + inc + drv, "drv2" + kind + cxx + " ".join(flags) + REPO)
    d = os.path.join(BUILD, "b-" + kind + "-" + key)
    lk = _lock(kind)
    try:
        if os.path.exists(d + "/ok"):
            os.utime(d)
            return Build(d + "/drv", set(json.load(open(d + "/ok"))))
        shutil.rmtree(d, ignore_errors=True)
        err = None
        objs = {}
        for lv in DRV_LEVELS:
            mon = ("-DCGMF_MONITOR",) if "-DCGMF_MONITOR" in lv else ()
            if "-DDRV_KERNELS" in lv and not os.path.exists(HERE + "/drv/kernels.inc"):
                continue
            try:
                if mon not in objs:
                    objs[mon] = None
                    objs[mon] = _compile(cxx, flags, list(mon), d + "/o" + ("m" if mon else ""), src)
                if objs[mon] is None:
                    continue
                r = subprocess.run([cxx] + flags + lv + ["-std=c++14", "-w", "-fno-access-control", "-I" + os.path.dirname(objs[mon][0]), "-I" + REPO + "/libcgmf/include", HERE + "/drv/drv.cpp"] + objs[mon] + ["-o", d + "/drv"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError(r.stdout.decode(errors="replace")[-1500:])
                feats = []
                if mon: feats.append("monitor")
                if "-DDRV_PUBLIC_ONLY" not in lv: feats.append("internal")
                if "-DDRV_KERNELS" in lv: feats.append("kernels")
                for o in ("o", "om"):
                    shutil.rmtree(d + "/" + o, ignore_errors=True)
                json.dump(feats, open(d + "/ok", "w"))
                _prune(8)
                return Build(d + "/drv", set(feats))
            except BuildError as e:
                err = e
        raise BuildError("cannot build the driver: %s" % err)
    finally:
        lk.close()


def build_main(kind="opt"):
    """the cgmf.x program of the current tree"""
    cxx, flags = FLAGS[kind]
    src, inc = _sources()
    main = sorted(glob.glob(REPO + "/utils/cgmf/*.cpp")) + sorted(glob.glob(REPO + "/utils/cgmf/*.h"))
    key = _digest(src + inc + main, "main" + kind + cxx + " ".join(flags) + REPO)
    d = os.path.join(BUILD, "b-main" + kind + "-" + key)
    lk = _lock("main" + kind)
    try:
        if os.path.exists(d + "/ok"):
            os.utime(d)
            return d + "/cgmf.x"
        shutil.rmtree(d, ignore_errors=True)
        ms = [m for m in main if m.endswith(".cpp")]
        objs = _compile(cxx, flags, [], d + "/o", src + ms, ["-I" + REPO + "/utils/cgmf"])
        r = subprocess.run([cxx] + flags + objs + ["-o", d + "/cgmf.x"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-1500:])
        shutil.rmtree(d + "/o", ignore_errors=True)
        open(d + "/ok", "w").write("[]")
        _prune(8)
        return d + "/cgmf.x"
    finally:
        lk.close()


# ---------------------------------------------------------------- scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cgmfv-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_levtab = {}
def level_table(profile, seed):
    k = (profile, seed)
    if k not in _levtab:
        _levtab[k] = levmod.table(REPO, profile, seed)
    return _levtab[k]


_rd = {}
_rdlock = threading.Lock()
def rundir(profile="std", seed=1):
    """scratch directory holding the discrete-level file of this profile"""
    k = (profile, seed)
    with _rdlock:
        if k not in _rd:
            d = os.path.join(scratch(), "r-%s-%d" % (profile, seed))
            os.makedirs(d)
            levmod.write(d + "/discreteLevels.dat", level_table(profile, seed))
            _rd[k] = d
        return _rd[k]


ENV = dict(os.environ, MALLOC_TRIM_THRESHOLD_="4000000000", MALLOC_MMAP_THRESHOLD_="4000000000", MALLOC_TOP_PAD_="64000000",
           ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98", LSAN_OPTIONS="exitcode=97", CGMFDATA=DATA)


class Run:
    """outcome of one driver process"""
    def __init__(self, cmds, recs, rc, err, cwd):
        self.cmds, self.recs, self.rc, self.err, self.cwd = cmds, recs, rc, err, cwd
    @property
    def ended(self):
        return bool(self.recs) and self.recs[-1].get("k") == "end"


def run1(b, cmds, cwd, timeout=600, env=None, datapath=None):
    path = b.path if isinstance(b, Build) else b
    try:
        p = subprocess.run([path, datapath or DATA], input=("\n".join(cmds) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or ENV, timeout=timeout)
        out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        out, rc, err = e.stdout or b"", -999, b"timeout after %d s" % timeout
    recs = []
    for l in out.decode(errors="replace").splitlines():
        try:
            recs.append(json.loads(l))
        except ValueError:
            recs.append({"k": "garbled", "text": l[:300]})
    return Run(cmds, recs, rc, err.decode(errors="replace"), cwd)


def runmany(b, jobs, timeout=700):
    """jobs: list of (cmds, cwd); run in parallel, keep order"""
    res = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lk = threading.Lock()
    def work():
        while True:
            with lk:
                i = next(it, None)
            if i is None:
                return
            res[i] = run1(b, jobs[i][0], jobs[i][1], timeout)
    ts = [threading.Thread(target=work) for _ in range(min(NPROC, len(jobs)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res


def pmap(f, xs, n=NPROC):
    res = [None] * len(xs)
    it = iter(range(len(xs)))
    lk = threading.Lock()
    ex = []
    def work():
        while True:
            with lk:
                i = next(it, None)
            if i is None:
                return
            try:
                res[i] = f(xs[i])
            except Exception as e:
                ex.append(e)
    ts = [threading.Thread(target=work) for _ in range(min(n, len(xs)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    if ex:
        raise ex[0]
    return res


def chunks(l, n):
    k = max(1, -(-len(l) // n))
    return [l[i:i + k] for i in range(0, len(l), k)]


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.tier = "thorough" if (len(sys.argv) > 1 and "thorough" in sys.argv[1:]) or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random("%s-%d-%s" % (pid, self.seed, self.tier))
        self.level = level
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.viols = []
        self.knowns = {}
        self.assume = []
        self.rule = ""
        self.extra = {}
        self.findings = load_findings(pid)

    def thorough(self, q, t):
        return t if self.tier == "thorough" else q

    def ok(self, kind=None, key=None, n=1):
        self.evals += n
        if kind:
            self.counts[kind] = self.counts.get(kind, 0) + n
        if key is not None and len(self.distinct) < 2000000:
            self.distinct.add(key)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def viol(self, what, detail=None, cwd=None):
        """a monitor saw the property broken"""
        self.viols.append((what, detail))
        if len(self.viols) <= 5:
            print("  [%s] %s" % (self.pid, what[:400]), flush=True)

    def known(self, fid, what):
        """a violation the known-findings file lists (fid must be listed there)"""
        if fid in self.findings:
            if fid not in self.knowns:
                self.knowns[fid] = what
        else:
            self.viol(what, {"finding": fid})

    def finish(self):
        rp = None
        if self.viols:
            d = os.path.join(HERE, "build", "replay"); os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s.json" % self.pid)
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                       "rerun": "VERIF_SEED=%d python3-vt %s/checks/run.py %s %s" % (self.seed, HERE, self.pid, self.tier),
                       "violations": [{"what": w, "detail": dd} for w, dd in self.viols[:50]], "total": len(self.viols)}, open(rp, "w"), indent=1, default=str)
        for f, w in sorted(self.knowns.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, f, w))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "samples": [json.dumps(s, default=str)[:600] if not isinstance(s, str) else s[:600] for s in self.samples] or ["none"],
                           "observed": self.counts},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viols), "assumptions": self.assume}
        ev["coverage"].update(self.extra)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % self.pid, "w"), indent=1, default=str)
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1f s" % (self.pid, self.tier, self.evals, len(self.distinct), len(self.viols), time.time() - self.t0))
        if self.viols:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        return 0


def load_findings(pid):
    """ids of the recorded (not repaired) findings of this property"""
    res = {}
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                f, _, t = l.split(" ", 2)[2].partition(": ")
                res[f] = t
    return res


def close(a, b, rel=1e-9, ab=1e-9):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
