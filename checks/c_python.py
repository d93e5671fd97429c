"""C21 (toolkit reads files faithfully) and C22 (toolkit statistics equal their definitions)."""
import io, contextlib, subprocess, warnings, importlib
from vlib import *
from work import *
import hist
import numpy as np
from c_program import prog, fresh

warnings.simplefilter("ignore")


def toolkit():
    if REPO + "/tools" not in sys.path:
        sys.path.insert(0, REPO + "/tools")
    sys.dont_write_bytecode = True
    import CGMFtk.histories, CGMFtk.yields
    return CGMFtk.histories.Histories, CGMFtk.yields.Yields


def call(f, *a, **k):
    """-> (value, error text); the toolkit may print and may exit"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **k), None
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        return None, "%s: %s" % (type(e).__name__, e)


# ------------------------------------------------------------- files
def unit(rng):
    m = rng.choice([0, 1, 1, 1, 1])
    if not m:
        v = [0.0, 0.0, 0.0]; v[rng.randrange(3)] = rng.choice([-1.0, 1.0]); return v
    c = rng.uniform(-1, 1); p = rng.uniform(0, 2 * math.pi); s = math.sqrt(1 - c * c)
    return [s * math.cos(p), s * math.sin(p), c]


def number(rng, x):
    return rng.choice(["%.3f", "%.3f", "%.6f", "%g", "%.4e"]) % x


def gen_history(rng, kind, nev):
    """a well-formed history file"""
    sf = rng.random() < 0.3
    za = rng.choice(SF if sf else NI); e = 0.0 if sf else float("%.4g" % rng.uniform(0.001, 20))
    win = {"nohead": None}.get(kind, rng.choice([-1.0, -1.0, 1e-8, 0.0, 1e-6]))
    if kind in ("timed", "late"): win = -1.0
    A0 = za % 1000 + (0 if sf else 1); Z0 = za // 1000
    L = ["# %d %g" % (za, e) + ("" if win is None else " %g" % win)]
    fix = (rng.randrange(0, 4), rng.randrange(0, 6))
    nz = ([0, 0, 1, 1, 2, 3, 4] if kind != "many" else [10, 9, 0, 7])
    gz = ([0, 1, 2, 3, 4, 5, 7, 12] if kind != "many" else [50, 49, 0, 31])
    grid = [round(rng.uniform(0.01, 8), 3) for _ in range(6)]
    for _ in range(nev):
        npn = 0 if sf or kind == "nopre" else rng.choice([0, 0, 0, 1, 2, 3])
        if kind == "allpre" and not sf: npn = rng.choice([1, 1, 2, 3])
        A = A0 - npn
        Al = A // 2 if rng.random() < 0.1 else rng.randrange(A // 2 - 25, A // 2 + 1)
        if kind == "onemass": Al = A // 2 - 10
        Zl = round(Z0 * Al / A) + rng.choice([-1, 0, 0, 1]) if Al * 2 != A or rng.random() < .5 else Z0 // 2
        for side, (a, z) in enumerate(((Al, Zl), (A - Al, Z0 - Zl))):
            nn, ng = rng.choice(nz), rng.choice(gz)
            if kind == "equal": nn, ng = fix
            if kind == "non" or (kind == "nonL" and side == 0) or (kind == "nonH" and side == 1): nn = 0
            if kind == "nog": ng = 0
            ke = rng.uniform(40, 120)
            if kind == "onetke": ke = 90.0
            if kind == "inttke": ke = float(rng.randrange(70, 100))
            N = lambda x: number(rng, x)
            L.append(" ".join([str(a), str(z), N(rng.uniform(0, 60)), "%.1f" % (rng.randrange(0, 60) / 2), str(rng.choice([-1, 1])), N(ke), N(ke * rng.uniform(.9, 1)), str(nn), str(ng), str(npn if side else 0)]))
            L.append(" ".join(N(rng.uniform(-5000, 5000)) for _ in range(6)))
            def en(hi):
                x = rng.random()
                return rng.choice(grid) if x < .25 else rng.uniform(0, .02) if x < .35 else rng.expovariate(1) * hi / 4
            if nn:
                for _f in range(2):
                    L.append(" ".join(" ".join([N(c) for c in unit(rng)] + [N(en(4))]) for _ in range(nn)))
            if ng:
                t = 0.0; p = []
                for _ in range(ng):
                    t += rng.choice([0.0, 10 ** rng.uniform(-12, -6), 10 ** rng.uniform(-9, 2) if kind == "late" or rng.random() < .1 else 1e-12])
                    p.append(" ".join([N(c) for c in unit(rng)] + [N(en(3))] + (["%.6e" % t] if win is not None and win < 0 else [])))
                L.append(" ".join(p))
            if side and npn:
                L.append(" ".join(" ".join([N(c) for c in unit(rng)] + [N(en(6))]) for _ in range(npn)))
    return "\n".join(L) + "\n"


KINDS = ["plain", "plain", "timed", "timed", "late", "late", "nohead", "equal", "non", "nonL", "nonH", "nog", "many", "allpre", "nopre", "onemass", "onetke", "inttke"]


def files(ck, n, nprog):
    """(name, text) of history files, generated and written by the program"""
    rng = ck.rng
    out = []
    for i in range(n):
        k = KINDS[i % len(KINDS)]
        nev = rng.choice([1, 2, 3, 8, 30, 60, 120])
        out.append(("generated %s %d" % (k, nev), gen_history(rng, k, nev)))
    x = build_main("opt"); ls = 1 + ck.seed % 5
    jobs = []
    for i in range(nprog):
        za, e = reaction(rng, hi=0.6)
        jobs.append((za, e, rng.choice([1e-8, -1.0, -1.0, 0.0, 1e-6]), rng.choice([1, 10, 40]), rng.choice(["std", "isomer"])))
    for p in ("std", "isomer"): rundir(p, ls)
    def one(j):
        za, e, w, nev, p = j
        d = fresh(p, ls)
        rc, so, se = prog(x, ["-i", za, "-e", "%.10g" % e, "-n", nev, "-t", "%g" % w], d)
        t = open(d + "/histories.cgmf.0").read() if os.path.exists(d + "/histories.cgmf.0") else None
        shutil.rmtree(d)
        return "cgmf.x -i %d -e %.10g -n %d -t %g (%s levels)" % (za, e, nev, w, p), t
    out += [r for r in pmap(one, jobs) if r[1]]
    for f in sorted(glob.glob(REPO + "/utils/cgmf/tests/*/histories*.reference")):
        t = open(f).read()
        out.append((f[len(REPO):], t))
    return out


def same(a, b, tol=0.0):
    """toolkit value against nested lists of numbers"""
    if isinstance(b, (list, tuple)):
        try:
            if len(a) != len(b): return False
        except TypeError:
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    try:
        a = float(a)
    except (TypeError, ValueError):
        return False
    return a == b or abs(a - b) <= tol * max(1e-12, abs(a), abs(b))


def columns(evs, head):
    """getter -> expected"""
    fr = [f for e in evs for f in e[:2]]
    L, H = fr[::2], fr[1::2]
    tm = head[2] < 0
    P = [e[2] for e in evs]
    c = {"getNumberFragments": len(fr), "getNumberEvents": len(evs), "getTimeCoincidenceWindow": head[2],
         "getA": [f["A"] for f in fr], "getZ": [f["Z"] for f in fr], "getN": [f["A"] - f["Z"] for f in fr], "getU": [f["U"] for f in fr], "getJ": [f["J"] for f in fr],
         "getP": [f["P"] for f in fr], "getKEpre": [f["KE"] for f in fr], "getKEpost": [f["KEpost"] for f in fr], "getNu": [f["nn"] for f in fr],
         "getNuEvent": [a["nn"] + b["nn"] for a, b in zip(L, H)], "getNuLF": [f["nn"] for f in L], "getNuHF": [f["nn"] for f in H],
         "getNutot": [a["nn"] + b["nn"] + b["np"] for a, b in zip(L, H)], "getPreFissionNu": [f["np"] for f in H], "getNug": [f["ng"] for f in fr],
         "getNugLF": [f["ng"] for f in L], "getNugHF": [f["ng"] for f in H], "getNugtot": [a["ng"] + b["ng"] for a, b in zip(L, H)],
         "getTKEpre": [a["KE"] + b["KE"] for a, b in zip(L, H)], "getTKEpost": [a["KEpost"] + b["KEpost"] for a, b in zip(L, H)], "getTXE": [a["U"] + b["U"] for a, b in zip(L, H)],
         "getNeutronElab": [[x[3] for x in f["lab"]] for f in fr], "getNeutronEcm": [[x[3] for x in f["cm"]] for f in fr], "getGammaElab": [[x[3] for x in f["g"]] for f in fr],
         "getGammaAges": [[x[4] if tm else 0.0 for x in f["g"]] for f in fr],
         "getLabNeutronDircos": [[x[:3] for x in f["lab"]] for f in fr], "getcmNeutronDircos": [[x[:3] for x in f["cm"]] for f in fr],
         "getFragmentMomentumPre": [f["pre"] for f in fr], "getFragmentMomentumPost": [f["post"] for f in fr]}
    for s, X in (("LF", L), ("HF", H)):
        c["getA" + s] = [f["A"] for f in X]; c["getZ" + s] = [f["Z"] for f in X]; c["getN" + s] = [f["A"] - f["Z"] for f in X]
        c["getU" + s] = [f["U"] for f in X]; c["getJ" + s] = [f["J"] for f in X]; c["getP" + s] = [f["P"] for f in X]; c["getKE" + s] = [f["KE"] for f in X]
    return c, P


def read_ok(ck, h, evs, head, what):
    c, P = columns(evs, head)
    good = True
    for g, w in c.items():
        v, err = call(getattr(h, g))
        ck.ok("accessors compared")
        if err or not same(v, w):
            ck.viol("%s: %s() %s" % (what, g, err or "returns %s, the file holds %s" % (str(v)[:200], str(w)[:200]))); good = False
    # pre-fission neutrons: only the events that have some
    for g, col in (("getPreFissionNeutronElab", lambda x: x[3]), ("getPreFissionNeutronDircos", lambda x: x[:3])):
        v, err = call(getattr(h, g))
        ck.ok("accessors compared")
        if err or len(v) != len(P) or any(not same(a, [col(x) for x in p]) for a, p in zip(v, P) if p):
            ck.viol("%s: %s() %s" % (what, g, err or "returns %s" % str(v)[:300])); good = False
    return good


def C21(ck):
    ck.rule = "one evaluation per accessor compared; distinct by file"
    ck.assume = ["the entry for an event without pre-fission neutrons is not looked at; photons of files without times have age 0"]
    Hist, Yld = toolkit()
    rng = ck.rng
    d = tempfile.mkdtemp(dir=scratch())
    objs = []
    for i, (name, text) in enumerate(files(ck, ck.thorough(100, 1500), ck.thorough(16, 120))):
        try:
            head, evs = hist.parse(text)
        except hist.Bad:
            continue
        if not evs: continue
        f = d + "/h%d" % i
        open(f, "w").write(text)
        N = len(evs)
        for n in [None] + sorted({1, rng.randrange(1, N + 1), N, N + rng.choice([1, 5])}):
            if n is not None and N > 300 and n > 50: continue
            h, err = call(Hist, f) if n is None else call(Hist, f, nevents=n)
            what = "%s%s" % (name, "" if n is None else " (first %d of %d)" % (n, N))
            ck.ok("history files read", (name, i, n))
            if err: ck.viol("%s cannot be read: %s" % (what, err)); continue
            if not read_ok(ck, h, evs[:n] if n else evs, head, what): break
            if n is None and rng.random() < .2: objs.append((h, evs, head, what))
        ck.sample({"file": name, "events": N, "neutrons": sum(f_["nn"] for e in evs for f_ in e[:2]), "photons": sum(f_["ng"] for e in evs for f_ in e[:2]), "pre-fission": sum(len(e[2]) for e in evs)})
        os.unlink(f)
    for h, evs, head, what in objs:      # objects do not disturb one another
        if not read_ok(ck, h, evs, head, what + ", after other files were read"): break
    # refused, not misread
    for bad in (0, -3, "x"):
        f = d + "/b"; open(f, "w").write(gen_history(rng, "plain", 4))
        h, err = call(Hist, f, nevents=bad)
        ck.ok("refused requests")
        if not err: ck.viol("Histories(nevents=%r) is accepted" % (bad,))
    h, err = call(Hist, d + "/nothere")
    if not err: ck.viol("a missing history file is accepted")

    # yields files
    b = build("opt"); x = build_main("opt"); ls = 1 + ck.seed % 5
    texts = []
    for i in range(ck.thorough(40, 400)):
        n = rng.choice([1, 2, 5, 40, 300]); rows = []
        fm = rng.choice(["%.3f", "%.6f", "%g", "%.4e"])
        for _ in range(n):
            A = rng.randrange(230, 254); Z = rng.randrange(92, 99); a = rng.randrange(80, A // 2 + 1); z = rng.randrange(32, Z // 2 + 1)
            for aa, zz in ((a, z), (A - a, Z - z)):
                rows.append(" ".join([str(zz), str(aa), fm % rng.uniform(30, 130), fm % rng.uniform(0, 60), "%.1f" % (rng.randrange(60) / 2), str(rng.choice([-1, 1]))] + [fm % rng.uniform(-6000, 6000) for _ in range(3)]))
        texts.append(("generated %d" % n, "\n".join(rows) + "\n"))
    for i in range(ck.thorough(6, 40)):
        za, e = reaction(rng, hi=.6); dd = fresh("std", ls); n = rng.choice([1, 20, 200])
        prog(x, ["-i", za, "-e", "%.10g" % e, "-n", -n], dd)
        if os.path.exists(dd + "/yields.cgmf.0"): texts.append(("cgmf.x -i %d -e %g -n %d" % (za, e, -n), open(dd + "/yields.cgmf.0").read()))
        shutil.rmtree(dd)
    for name, text in texts:
        try: rows = hist.parse_yields(text)
        except hist.Bad: continue
        f = d + "/y"; open(f, "w").write(text); N = len(rows) // 2
        for n in [None] + sorted({1, rng.randrange(1, N + 1), N, N + 3}):
            y, err = call(Yld, f) if n is None else call(Yld, f, nevents=n)
            ck.ok("yields files read", ("y", name, n))
            if err: ck.viol("yields file %s (n=%s): %s" % (name, n, err)); break
            R = rows[:2 * n] if n else rows
            c = {"getNumberFragments": len(R), "getNumberEvents": len(R) // 2, "getTXE": [R[k][3] + R[k + 1][3] for k in range(0, len(R), 2)],
                 "getTKE": [R[k][2] + R[k + 1][2] for k in range(0, len(R), 2)], "getN": [r[1] - r[0] for r in R], "getFragmentMomentum": [r[6:9] for r in R]}
            for g, k in (("A", 1), ("Z", 0), ("U", 3), ("J", 4), ("P", 5), ("KE", 2)):
                c["get" + g] = [r[k] for r in R]; c["get%sLF" % g] = [r[k] for r in R[::2]]; c["get%sHF" % g] = [r[k] for r in R[1::2]]
            for g, w in c.items():
                v, err = call(getattr(y, g)); ck.ok("accessors compared")
                if err or not same(v, w, 1e-12): ck.viol("yields file %s (n=%s): %s() %s" % (name, n, g, err or "returns %s, the file holds %s" % (str(v)[:150], str(w)[:150]))); break
            T, err = call(y.summaryTable)
            if err: ck.viol("yields file %s: summaryTable() %s" % (name, err)); break
            if n is None and not table_ok(T, {"A": ("5.2f", c["getA"], c["getALF"], c["getAHF"]), "Z": ("5.2f", c["getZ"], c["getZLF"], c["getZHF"]), "TXE": ("5.2f", c["getTXE"], c["getULF"], c["getUHF"]),
                                     "TKE": ("5.2f", c["getTKE"], c["getKELF"], c["getKEHF"]), "J": ("5.2f", c["getJ"], c["getJLF"], c["getJHF"]), "parity": ("5.2f", c["getP"], c["getPLF"], c["getPHF"])}):
                ck.viol("yields file %s: summary table %s" % (name, T))
    y, err = call(Yld, d + "/nothere")
    if not err: ck.viol("a missing yields file is accepted")


def mean(l):
    return math.fsum(l) / len(l) if l else None


def table_ok(T, want):
    """rows of the summary table by their first word"""
    rows = {}
    for r in T:
        k = str(r[0]).split()[0].strip() if str(r[0]).split() else ""
        rows[k] = [str(x) for x in r[1:]]
    for k, (fm, *cols) in want.items():
        if k not in rows or len(rows[k]) < len(cols): return False
        dec = int(fm.split(".")[1][0])
        for s, c in zip(rows[k], cols):
            w = mean(c) if isinstance(c, list) else c
            if w is None: continue
            try: v = float(s)
            except ValueError: return False
            if not abs(v - w) <= 0.5 * 10 ** -dec + 1e-9 * (1 + abs(w)): return False
    return True


# ------------------------------------------------------------- C22
def definitions(evs, head, rng):
    """(method, args, kwargs, checker) for every statistic; expected values from the definitions"""
    fr = [f for e in evs for f in e[:2]]
    L, H = fr[::2], fr[1::2]; N = len(evs); tm = head[2] < 0
    E = lambda fs, k="lab": [x[3] for f in fs for x in f[k]]
    pre = [x[3] for e in evs for x in e[2]]
    age = lambda f: [x[4] if tm else 0.0 for x in f["g"]]
    T = 1e-9
    R = []
    def val(name, want, *a, **k):
        R.append((name, a, k, lambda v, want=want: same(v, want, T), want))
    def pair(name, xs, ys, *a, **k):
        R.append((name, a, k, lambda v: len(v) == 2 and same(v[0], xs, 1e-9) and same(v[1], ys, T), (xs, ys)))
    allE = sorted(set(E(fr) + pre)) or [1.0]; allG = sorted(set(E(fr, "g"))) or [1.0]
    def thr(al):
        return rng.choice([0.0, 0.1, rng.choice(al), rng.choice(al), rng.uniform(0, 5), al[-1]])
    val("nubar", mean([f["nn"] for f in fr])); val("nubartot", mean([a["nn"] + b["nn"] + b["np"] for a, b in zip(L, H)]))
    val("preFissionNubar", mean([b["np"] for b in H]))
    val("nubarg", mean([f["ng"] for f in fr])); val("nubargtot", mean([a["ng"] + b["ng"] for a, b in zip(L, H)]))
    for _ in range(3):
        e = thr(allG); n = [sum(x[3] >= e for x in f["g"]) for f in fr]
        val("nubarg", mean(n), Eth=e); val("nubargtot", sum(n) / N, Eth=e)
        val("getNugEnergyCut", [sum(x[3] > e for x in f["g"]) for f in fr], e)
        As = list(range(min(f["A"] for f in fr), max(f["A"] for f in fr) + 1))
        pair("nubargA", As, [mean([k for k, f in zip(n, fr) if f["A"] == a]) or 0.0 for a in As], Eth=e)
        nt = [n[2 * i] + n[2 * i + 1] for i in range(N)]
        pair("Pnug", list(range(max(nt) + 1)), [sum(x == k for x in nt) / N for k in range(max(nt) + 1)], Eth=e)
        ts = sorted(10 ** rng.uniform(-12, 2) for _ in range(rng.choice([1, 5, 12])))
        if tm and rng.random() < .5:
            at = [t for f in fr for t in age(f)]
            if at: ts[-1] = rng.choice(at)
        ts = sorted(ts); tt = ts if rng.random() < .5 else np.array(ts)
        cnt = [sum(t <= u and x[3] >= e for f in fr for x, t in zip(f["g"], age(f))) for u in ts]
        pair("nubarg", ts, [c / (2 * N) for c in cnt], timeWindow=tt, Eth=e); pair("nubargtot", ts, [c / N for c in cnt], timeWindow=tt, Eth=e)
        e = thr(allE)
        val("getNuEnergyCut", [sum(x[3] > e for x in f["lab"]) for f in fr], e)
        nt = [sum(x[3] >= e for x in ev_[0]["lab"] + ev_[1]["lab"] + ev_[2]) for ev_ in evs]
        pair("Pnu", list(range(max(nt) + 1)), [sum(x == k for x in nt) / N for k in range(max(nt) + 1)], Eth=e)
    ts = [float(t) for t in np.logspace(-9, 0, 15)]
    cnt = [sum(t <= u for f in fr for t in age(f)) for u in ts]
    pair("nubarg", ts, [c / (2 * N) for c in cnt], timeWindow=True); pair("nubargtot", ts, [c / N for c in cnt], timeWindow=True)
    nt = [a["nn"] + b["nn"] + b["np"] for a, b in zip(L, H)]
    pair("Pnu", list(range(max(nt) + 1)), [sum(x == k for x in nt) / N for k in range(max(nt) + 1)])
    nt = [a["ng"] + b["ng"] for a, b in zip(L, H)]
    pair("Pnug", list(range(max(nt) + 1)), [sum(x == k for x in nt) / N for k in range(max(nt) + 1)])
    # mean energies
    for name, l in (("meanNeutronElab", E(fr) + pre), ("meanNeutronElabLF", E(L)), ("meanNeutronElabHF", E(H)), ("meanNeutronElabFragments", E(fr)), ("meanNeutronEcmFragments", E(fr, "cm")),
                    ("meanNeutronEcmLF", E(L, "cm")), ("meanNeutronEcmHF", E(H, "cm")), ("meanGammaElab", E(fr, "g")), ("meanGammaElabLF", E(L, "g")), ("meanGammaElabHF", E(H, "g"))):
        if l: val(name, mean(l))
    val("meanPreFissionNeutronElab", mean(pre) if pre else 0.0)
    # against mass
    As = list(range(min(f["A"] for f in fr), max(f["A"] for f in fr) + 1))
    tke = [a["KE"] + b["KE"] for a, b in zip(L, H)]; tke2 = [t for t in tke for _ in (0, 1)]
    for name, q in (("nubarA", [f["nn"] for f in fr]), ("nubargA", [f["ng"] for f in fr]), ("UA", [f["U"] for f in fr]), ("spinA", [f["J"] for f in fr]), ("TKEA", tke2)):
        pair(name, As, [mean([x for x, f in zip(q, fr) if f["A"] == a]) or 0.0 for a in As])
    # against TKE: bins of 1 MeV from the smallest one
    xs = [float(x) for x in np.arange(min(tke), max(tke))]
    for name, q, t in (("nubarTKE", [a["nn"] + b["nn"] for a, b in zip(L, H)], tke), ("nubargTKE", [a["ng"] + b["ng"] for a, b in zip(L, H)], tke), ("UTKE", [f["U"] for f in fr], tke2), ("spinTKE", [f["J"] for f in fr], tke2)):
        ys = [mean([x for x, y in zip(q, t) if xs[i] <= y and (i == len(xs) - 1 or y < xs[i + 1])]) or 0.0 for i in range(len(xs))]
        pair(name, xs, ys)
    # spectra
    def spec(name, grid, l, norm, **k):
        c, _ = np.histogram(l, bins=grid)
        if c.sum() == 0: return
        de = np.diff(grid); cen = .5 * (grid[1:] + grid[:-1])
        pair(name, list(map(float, cen)), list(map(float, c / de / c.sum() * norm)), **k)
    gn, gg = np.logspace(-3, 2, 100), np.logspace(-1, 1, 200)
    mg = mean([f["ng"] for f in fr]) * 2
    spec("pfns", gn, E(fr) + pre, 1.0); spec("pfgs", gg, E(fr, "g"), mg)
    for _ in range(2):
        e = thr(allE); spec("pfns", gn, [x for x in E(fr) + pre if x >= e], 1.0, Eth=e)
        e = thr(allG); spec("pfgs", gg, [x for x in E(fr, "g") if x >= e], mg, Eth=e)
        t0, t1 = sorted(rng.choice([0.0, 10 ** rng.uniform(-12, 2)]) for _ in (0, 1))
        spec("pfgs", gg, [x[3] for f in fr for x, t in zip(f["g"], age(f)) if x[3] >= e and t0 <= t <= t1], mg, Eth=e, minTime=t0, maxTime=t1)
        spec("pfgs", gg, [x[3] for f in fr for x, t in zip(f["g"], age(f)) if t0 <= t <= t1], mg, minTime=t0, maxTime=t1)
    # angles
    def cosz(f, k): return f[k][2] / math.sqrt(sum(c * c for c in f[k]))
    val("FFangles", [cosz(f, "post") for f in fr]); val("FFangles", [cosz(f, "post") for f in fr], afterEmission=True); val("FFangles", [cosz(f, "pre") for f in fr], afterEmission=False)
    def ang(name, f, exp, *a, **k):
        R.append((name, a, k, f, exp))
    def triple(name, al, li, he, **k):
        # the order of the neutrons is not part of the definition
        def chk(v):
            return len(v) == 3 and all(same(sorted(map(float, x)), sorted(w), 1e-7) or np.allclose(sorted(map(float, x)), sorted(w), atol=1e-9) if len(x) == len(w) else False for x, w in zip(v, (al, li, he)))
        R.append((name, (), k, chk, (al[:5], li[:5], he[:5])))
    prev = [x for e in evs for x in e[2]]
    for _ in range(3):
        e = thr(allE); kw = {} if rng.random() < .3 else {"Eth": e}
        if not kw: e = 0.0
        li, he = ([x[2] for f in X for x in f["lab"] if x[3] >= e] for X in (L, H))
        pp = [x[2] for x in prev if x[3] >= e]
        triple("nangles", li + he + pp, li, he, **kw); triple("nangles", li + he + pp, li, he, includePrefission=True, **kw); triple("nangles", li + he, li, he, includePrefission=False, **kw)
        li, he = ([x[2] for f in X for x in f["cm"] if x[3] >= e] for X in (L, H))
        triple("nangles", li + he, li, he, lab=False, **kw)
        k = rng.choice(["pre", "post"]); k2 = {} if k == "post" and rng.random() < .5 else {"afterEmission": k == "post"}
        dot = lambda x, f: sum(a * b for a, b in zip(x[:3], f[k])) / math.sqrt(sum(c * c for c in f[k]))
        li = [dot(x, a) for a in L for x in a["lab"] if x[3] >= e]; he = [dot(x, a) for a, b in zip(L, H) for x in b["lab"] if x[3] >= e]
        pp = [dot(x, e_[0]) for e_ in evs for x in e_[2] if x[3] >= e]
        triple("nFangles", li + he + pp, li, he, **k2, **kw); triple("nFangles", li + he, li, he, includePrefission=False, **k2, **kw)
    for fm, kw in (("lab", {}), ("lab", {"lab": True}), ("cm", {"cm": True})):
        pr = lambda X: [sum(a * b for a, b in zip(f[fm][i][:3], f[fm][j][:3])) for f in X for i in range(f["nn"]) for j in range(i + 1, f["nn"])]
        li, he = pr(L), pr(H)
        triple("nnangles", li, he, li + he, **kw)
    # gates on photon energies
    for _ in range(3):
        m = rng.choice([1, 1, 2])
        eg = [rng.choice(allG) for _ in range(m)]; de = [rng.choice([0.0, 0.001, 0.05, 1.0]) for _ in range(m)]
        for post in (True, False):
            ok = []
            edge = False
            for f in fr:
                hit = True
                for a, b in zip(eg, de):
                    hit = hit and any(a - b <= x[3] <= a + b for x in f["g"])
                    edge = edge or any(x[3] != a and abs(abs(x[3] - a) - b) < 1e-12 for x in f["g"])
                if hit: ok.append([f["Z"], f["A"] - (f["nn"] if post else 0)])
            if edge: continue
            a = (eg[0], de[0]) if m == 1 and rng.random() < .5 else (eg, de) if rng.random() < .5 else (np.array(eg), np.array(de))
            R.append(("gammaSpec", a, {} if post and rng.random() < .5 else {"post": post}, lambda v, ok=ok: len(v) == len(ok) and same([list(r) for r in v], ok), ok[:5]))
    # photons against time
    prods = sorted({(f["A"] - f["nn"], f["Z"]) for f in fr})
    for _ in range(3):
        e = thr(allG); A, Z = rng.choice(prods); sel = rng.random() < .6
        t0, t1 = sorted(10 ** rng.uniform(-9, 2) for _ in (0, 1))
        win = rng.random() < .6 and t1 > 1.3 * t0
        kw = {}
        if rng.random() < .6: kw["Eth"] = e
        else: e = 0.0
        if sel: kw.update(Afragment=A, Zfragment=Z)
        if win: kw.update(minTime=t0, maxTime=t1)
        lo, hi = (t0, t1) if win else (1e-8, 100)
        nb = int(50 * abs(math.log10(t1) - math.log10(t0)) + 1) if win else 501
        if nb < 2: continue
        ed = np.linspace(lo, hi, nb)
        tt = [t for f in fr if not sel or (f["A"] - f["nn"], f["Z"]) == (A, Z) for x, t in zip(f["g"], age(f)) if x[3] >= e]
        if any(np.min(np.abs(ed - t)) < 1e-12 * t for t in tt if t): continue
        c, _ = np.histogram(tt, bins=ed)
        pair("gammaMultiplicity", list(map(float, .5 * (ed[1:] + ed[:-1]))), list(map(float, c)), **kw)
        A, Z = rng.choice(prods); th = 10 ** rng.uniform(-10, 1)
        if tm and rng.random() < .3: th = rng.choice([t for f in fr for t in age(f)] or [th])
        X = [f for f in fr if (f["A"] - f["nn"], f["Z"]) == (A, Z)]
        r = sum(any(t >= th for t in age(f)) for f in X) / len(X)
        jm, jg = rng.choice([(5.5, .5), (.5, 4.5), (8, 1), (0, 3), (2, 2)])
        val("isomericRatio", r if jm > jg else 1 - r, th, A, Z, jm, jg)
    if E(L) and E(H) and E(L, "g") and E(H, "g"):
        w = {"A": ("5.2f", [f["A"] for f in fr], [f["A"] for f in L], [f["A"] for f in H]), "Z": ("5.2f", [f["Z"] for f in fr], [f["Z"] for f in L], [f["Z"] for f in H]),
             "TXE": ("5.2f", [a["U"] + b["U"] for a, b in zip(L, H)], [f["U"] for f in L], [f["U"] for f in H]), "TKE": ("5.2f", tke, [f["KE"] for f in L], [f["KE"] for f in H]),
             "J": ("5.2f", [f["J"] for f in fr], [f["J"] for f in L], [f["J"] for f in H]), "parity": ("5.2f", [f["P"] for f in fr], [f["P"] for f in L], [f["P"] for f in H]),
             r"$\langle": None}
        w.pop(r"$\langle")
        def chk(t):
            if not table_ok(t, w): return False
            rest = [[float(x) for x in r[1:]] for r in t if str(r[0]).startswith("$")]
            exp = [[mean([a["nn"] + b["nn"] for a, b in zip(L, H)]), mean([f["nn"] for f in L]), mean([f["nn"] for f in H]), mean([f["np"] for f in H]), mean([a["nn"] + b["nn"] + b["np"] for a, b in zip(L, H)])],
                   [mean(E(fr, "cm")), mean(E(L, "cm")), mean(E(H, "cm"))], [mean(E(fr)), mean(E(L)), mean(E(H)), mean(pre) if pre else 0.0, mean(E(fr) + pre)],
                   [mean([a["ng"] + b["ng"] for a, b in zip(L, H)]), mean([f["ng"] for f in L]), mean([f["ng"] for f in H])], [mean(E(fr, "g")), mean(E(L, "g")), mean(E(H, "g"))]]
            dec = [3, 3, 3, 2, 2]
            return len(rest) == 5 and all(len(a) == len(b_) and all(abs(x - y) <= .5 * 10 ** -n + 1e-9 for x, y in zip(a, b_)) for a, b_, n in zip(rest, exp, dec))
        R.append(("summaryTable", (), {}, chk, "means"))
    return R


def C22(ck):
    ck.rule = "one evaluation per statistic compared; distinct by (file, statistic, arguments)"
    ck.assume = ["means over no particle are not requested", "a bin edge hit to rounding is not judged", "photon spectra integrate to the mean photon multiplicity, neutron spectra to 1",
                 "empty masses and energies are reported as 0"]
    Hist, _ = toolkit()
    rng = ck.rng
    d = tempfile.mkdtemp(dir=scratch())
    for i, (name, text) in enumerate(files(ck, ck.thorough(170, 2500), ck.thorough(16, 120))):
        try: head, evs = hist.parse(text)
        except hist.Bad: continue
        if not evs: continue
        f = d + "/h%d" % i
        open(f, "w").write(text)
        n = None
        if len(evs) > 120: n = 120; evs = evs[:120]
        h, err = call(Hist, f) if n is None else call(Hist, f, nevents=n)
        os.unlink(f)
        if err: ck.viol("%s cannot be read: %s" % (name, err)); continue
        R = definitions(evs, head, rng)
        again = rng.sample(R, min(len(R), 20))
        rng.shuffle(R)
        bad = 0
        for m, a, k, chk, want in R + again:
            v, err = call(getattr(h, m), *a, **k)
            ck.ok("calls of " + m, (i, m, str(a), str(sorted(k))))
            good = False
            if not err:
                try: good = chk(v)
                except Exception as e: err = "%s: %s" % (type(e).__name__, e)
            if not good:
                bad += 1
                ck.viol("%s: %s(%s) %s" % (name, m, ", ".join([str(x) for x in a] + ["%s=%s" % q for q in k.items()]), err or "returns %s, by definition %s" % (str(v)[:250], str(want)[:250])))
        if bad: continue
        # calls do not change what was read
        if not read_ok(ck, h, evs, head, name + ", after the statistics were computed"): continue
        ck.sample({"file": name, "events": len(evs), "statistics": len(R)})
