"""C16 (requests served or refused) and C20 (what the program writes) on the real program."""
import random, re, subprocess
from vlib import *
from work import *
import hist

ERRWORDS = re.compile(rb"runtime error|AddressSanitizer|Segmentation|core dumped")


def prog(x, args, cwd, env=None, timeout=300):
    try:
        p = subprocess.run([x] + [str(a) for a in args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, b"", b"timeout"


def fresh(profile, ls):
    """new working directory with a level file"""
    d = tempfile.mkdtemp(dir=scratch())
    os.symlink(rundir(profile, ls) + "/discreteLevels.dat", d + "/discreteLevels.dat")
    return d


# --------------------------------------------------------------- C16
def C16(ck):
    ck.rule = "one evaluation per request; distinct by request"
    ck.assume = ["refused = diagnostic on standard error or output and non-zero exit status without a signal; no event written"]
    x = build_main("opt"); b = build("opt")
    xs = build_main("san"); bs = build("san")
    rng = ck.rng; ls = 1 + ck.seed % 5
    rundir("std", ls)

    # ---- refused: program
    bad = []
    sup = set(SF) | set(NI)
    for za in SF:
        for e in ("2.53e-8", "1.0", "%.6g" % rng.uniform(1e-6, 20)):
            bad.append(["-i", za, "-e", e])
    for za in NI:
        bad += [["-i", za, "-e", "0"], ["-i", za, "-e", "0.0"]]
        for e in ("20.0001", "%.17g" % (20 + 10 ** rng.uniform(-14, -1.3)), "20.5", "%.6g" % rng.uniform(20.001, 60), "1e6", "-1", "-1e-9", "%.4g" % -rng.uniform(0.01, 15)):
            bad.append(["-i", za, "-e", e])
    for za in SF:
        bad.append(["-i", za, "-e", "%.4g" % -rng.uniform(0.01, 15)])
    unk = {0, -92235, 1, 92, 235, 1001, 1000, 92236, 92237, 92232, 93238, 93236, 94237, 94245, 95241, 95243, 96244, 98250, 98251, 98253, 98255, 99252, 90232, 91231, 922350, 2147483647, 92000, 94243, 93239, 92239, 100256}
    unk |= {1000 * rng.randrange(1, 110) + rng.randrange(1, 290) for _ in range(ck.thorough(10, 150))}
    for za in sorted(unk - sup):
        bad.append(["-i", za, "-e", rng.choice(["0", "1.0", "2.53e-8", "14.1"])])
    bad += [["-i", 92235, "-e", repr(e)] for e in (20 + 4e-15, 20.000001, 20.001, 20.005, 20.05, 20.1, -5e-324, -0.0)]
    bad += [["-i", "U235", "-e", "1.0"], ["-i", "", "-e", "1.0"], ["-i", 92235, "-e", "fast"], ["-i", 92235, "-e", ""]]
    bad += [["-i", 92235, "-e", "nan"], ["-i", 92235, "-e", "inf"], ["-i", 98252], ["-i", 92235], ["-e", "1.0"], []]
    ok1 = ["-i", 92235, "-e", "1.0"]; ok2 = ["-i", 98252, "-e", "0.0"]
    jobs = []
    for a in bad:
        for n in (["-n", rng.choice([1, 3])], ["-n", -rng.choice([1, 20])]):
            jobs.append((a + n, None))
    for o in (ok1, ok2):
        jobs += [(o, None), (o + ["-n", 0], None), (o + ["-n", 2, "-z"], None), (o + ["-n", 2, "-q", "3"], None), (o + ["-n"], None), (o + ["-n", 2, "-t"], None), (o + ["-n", "many"], None), (o + ["-n", ""], None),
                 (o + ["-n", 2, "-t", -2], None), (o + ["-n", 2, "-t", "-0.5"], None), (o + ["-n", -2, "-t", "-3"], None),
                 (o + ["-n", 2, "-d", "/nonexistent/data"], None), (o + ["-n", -5, "-d", "/nonexistent/data"], None), (o + ["-n", 2, "-f", "/nonexistent/dir/h"], None), (o + ["-n", -2, "-f", "/nonexistent/dir/h"], None)]
        jobs += [(o + ["-n", 2, "-" + c], None) for c in "eifsd"] + [(o + ["-n", 2, "-" + c], None) for c in rng.sample("abcghjklmopqruvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?", ck.thorough(4, 50))]
        jobs += [(o + ["-n", n, "-d", DATA + "masses.dat"], None) for n in (2, -5)]
    def one(j):
        a, _ = j
        d = fresh("std", ls)
        exe = xs if random.Random(str(a)).random() < 0.25 else x
        r = prog(exe, a, d)
        left = [f for f in os.listdir(d) if f != "discreteLevels.dat"]
        body = [f for f in left if any(l.strip() and not l.startswith("#") for l in open(d + "/" + f, errors="replace"))]
        shutil.rmtree(d)
        return a, r, body
    for a, (rc, so, se), body in pmap(one, jobs):
        cmd = "cgmf.x " + " ".join(str(z) for z in a)
        ck.ok("unsupported requests to the program", cmd)
        if rc == 0: ck.viol("'%s' is not supported but ends with status 0" % cmd)
        elif rc < 0: ck.viol("'%s' dies with signal %d: %s" % (cmd, -rc, se[-200:].decode(errors="replace")))
        elif ERRWORDS.search(se): ck.viol("'%s': %s" % (cmd, se[:400].decode(errors="replace")))
        elif not (se.strip() or so.strip()): ck.viol("'%s' is refused without a diagnostic" % cmd)
        if body: ck.viol("'%s' is not supported but wrote events to %s" % (cmd, body))
        ck.sample({"request": cmd, "status": rc, "stderr": se[:120].decode(errors="replace")})

    # ---- refused: library, also after a served event
    req = []
    for a in bad:
        if "-i" in a and "-e" in a and str(a[3]) not in ("inf", "nan"):
            req.append((a[1], a[3]))
    rng.shuffle(req)
    req = req[:ck.thorough(48, 400)]
    def lib(j):
        za, e = j
        r_ = random.Random(str(j))
        k = r_.choice(["ev", "cev", "yields", "cyields"])
        tail = "0 -1 5" if k in ("ev", "cev") else "4 %s/ly%s 5" % (scratch(), r_.random())
        pre = r_.choice([[], ["ev 92235 1.0 0 -1 7"], ["cev 98252 0 0 1e-8 3"]])
        return pre, "%s %s %s %s" % (k, za, e, tail), run1(b if r_.random() < 0.75 else bs, pre + ["%s %s %s %s" % (k, za, e, tail)], rundir("std", ls), 120)
    for pre, c, r in pmap(lib, req):
        ck.ok("unsupported requests to the library", c)
        n = len([q for q in r.recs if q.get("k") not in ("garbled",)])
        if n < len(pre): ck.viol("supported request refused: '%s': %s" % (pre[0], r.err[-200:]))
        elif n > len(pre): ck.viol("library serves the unsupported request '%s'" % c, {"rec": r.recs[-1] if r.recs else None})
        elif r.rc <= 0 or ERRWORDS.search(r.err.encode()): ck.viol("library: '%s' ends with status %s: %s" % (c, r.rc, r.err[-300:]))
        elif not r.err.strip(): ck.viol("library: '%s' is refused without a diagnostic" % c)

    # ---- refused: the compound-nucleus interface outside its range of nuclei and energies
    cg = [(5, 12), (5, 11), (4, 9), (1, 3), (0, 1), (6, 11), (6, 10), (119, 300), (120, 298), (118, 301), (112, 301), (100, 999), (-92, 236), (0, 0)]
    cg = [(z, a, rng.uniform(2, 20)) for z, a in cg] + [(z, a, e) for z, a in ((55, 140), (92, 236), (12, 26)) for e in (0.0, -0.0, -1.0, -5e-324, 124.95, 124.951, 125.0, 200.0, 1e9)]
    for r in pmap(lambda q: run1(b if random.Random(str(q)).random() < 0.7 else bs, ["cgm %d %r 3" % (1000 * q[0] + q[1], q[2])], rundir("std", ls), 120), cg):
        c = r.cmds[0]
        ck.ok("unsupported compound nuclei", c)
        if [q for q in r.recs if q.get("k") not in ("garbled",)]: ck.viol("library serves the unsupported request '%s'" % c)
        elif r.rc <= 0 or ERRWORDS.search(r.err.encode()): ck.viol("library: '%s' ends with status %s: %s" % (c, r.rc, r.err[-300:]))
        elif not r.err.strip(): ck.viol("library: '%s' is refused without a diagnostic" % c)

    # ---- missing or unreadable data files: refused, or the file is not used at all
    used = set()
    def miss(f, how, reac, n):
        d = fresh("std", ls)
        dd = d + "/data"; os.makedirs(dd)
        for g in os.listdir(DATA):
            if g != f: os.symlink(DATA + g, dd + "/" + g)
        if f == "discreteLevels.dat": os.unlink(d + "/discreteLevels.dat")
        if f != "(none)":
            q = (d if f == "discreteLevels.dat" or how.endswith("here") else dd) + "/" + f
            if how.startswith("directory"): os.makedirs(q)
            if how.startswith("empty"): open(q, "w").close()
            if callable(reac[2] if len(reac) > 2 else None):
                open(q, "w").write(reac[2](open(DATA + f).read()))
        r = prog(x, ["-i", reac[0], "-e", reac[1], "-n", n, "-d", dd, "-f", d + "/o"], d, timeout=120)
        t = open(d + "/o.0").read() if os.path.exists(d + "/o.0") else None
        shutil.rmtree(d)
        return f, how, r, t
    def refused(f, how, rc, so, se, what):
        if rc == -999: ck.viol("%s %s: %s does not end" % (f, how, what))
        elif rc < 0: ck.viol("%s %s: %s dies with signal %d: %s" % (f, how, what, -rc, se[-200:].decode(errors="replace")))
        elif not (se.strip() or so.strip()): ck.viol("%s %s: no diagnostic for %s" % (f, how, what))
        else: return True
    for reac, n in (((92235, "14.0"), 4), ((98252, "0"), 4), ((94239, "18.5"), -40), ((98252, "0"), -40), ((92238, "2.53e-8"), 3)):
        fs = sorted(os.listdir(DATA)) + ["discreteLevels.dat"]
        res = pmap(lambda f: miss(f, "missing", reac, n), fs + ["(none)"])
        ref = res[-1]
        if ref[2][0] != 0 or not ref[3]:
            ck.viol("supported request %s refused: %s" % (reac, ref[2][2][-300:].decode(errors="replace"))); continue
        for f, _, (rc, so, se), t in res[:-1]:
            ck.ok("runs with one data file missing", (f, reac, n > 0))
            if rc == 0:
                if t != ref[3]: ck.viol("without %s, %s %s MeV runs to the end with other results" % (f, reac[0], reac[1]))
                else: ck.ok("data file not used")
            elif refused(f, "missing", rc, so, se, "%s %s MeV" % reac):
                ck.ok("missing file diagnosed"); used.add(f)
                if t and n > 0 and len(t.splitlines()) > 1 and f != "discreteLevels.dat": ck.viol("without %s: %s wrote events before stopping" % (f, reac))
    # files a run cannot do without, unreadable: a directory of that name, or nothing in it
    js = [(f, how, reac, n) for f in sorted(used) for how in ("directory", "empty", "directory here", "empty here") if f not in ("tkemodel.dat", "yamodel.dat", "multichancefission.dat") or not how.endswith("here") for reac, n in [rng.choice([((92235, "14.0"), 3), ((94241, "17.2"), -20), ((92238, "16.0"), 2)])]]
    for (f, how, (rc, so, se), t), j in zip(pmap(lambda j: miss(*j), js), js):
        what = "%s %s MeV -n %d" % (j[2][0], j[2][1], j[3])
        ck.ok("runs with one data file unreadable", (f, how))
        if rc == 0: ck.viol("%s unreadable (%s): %s runs to the end" % (f, how, what))
        elif refused(f, "unreadable (%s)" % how, rc, so, se, what) and t and any(l.strip() and not l.startswith("#") for l in t.splitlines()):
            ck.viol("%s unreadable (%s): %s wrote events before stopping" % (f, how, what))
    # data sets that do not hold the reaction or the energy
    def without(za):
        def f(s): return "\n".join(l for l in s.split("\n") if l.startswith("#") or not l.split() or l.split()[0] not in za) + "\n"
        return f
    def nomc(za):
        def f(s):
            L = s.split("\n"); out = []; i = 0
            while i < len(L):
                w = L[i].split()
                if not L[i].startswith("#") and len(w) == 3 and w[0] == str(za): i += int(w[1]) + 2; continue
                out.append(L[i]); i += 1
            return "\n".join(out)
        return f
    def cutmc(za, emax):
        def f(s):
            L = s.split("\n"); out = []; i = 0
            while i < len(L):
                w = L[i].split()
                if not L[i].startswith("#") and len(w) == 3 and w[0] == str(za):
                    blk = L[i + 2:i + 2 + int(w[1])]; keep = [q for q in blk if float(q.split()[0]) <= emax]
                    out += ["%s\t%d\t%s" % (w[0], len(keep), w[2]), L[i + 1]] + keep; i += int(w[1]) + 2; continue
                out.append(L[i]); i += 1
            return "\n".join(out)
        return f
    js = []
    for za in rng.sample(NI, ck.thorough(3, 7)):
        e = rng.uniform(12, 20)
        js += [("yamodel.dat", "without the reaction", (za, "%.6g" % e, without({str(za + 1)})), n) for n in (2, -3)]
        js += [("multichancefission.dat", "without the reaction", (za, "%.6g" % e, nomc(za)), n) for n in (2, -3)]
        js += [("multichancefission.dat", "not covering the energy", (za, "%.6g" % e, cutmc(za, rng.choice([0.5, 5.0, 10.0, 11.5]))), n) for n in (2, -3)]
    for za in rng.sample(SF, ck.thorough(2, 6)):
        js += [("yamodel.dat", "without the reaction", (za, "0", without({str(-za)})), n) for n in (2, -3)]
    for (f, how, (rc, so, se), t), j in zip(pmap(lambda j: miss(*j), js), js):
        what = "%s %s MeV -n %d" % (j[2][0], j[2][1], j[3])
        ck.ok("data sets that do not hold the request", (f, how, what))
        if rc == 0: ck.viol("%s %s: %s runs to the end" % (f, how, what))
        elif refused(f, how, rc, so, se, what) and t and any(l.strip() and not l.startswith("#") for l in t.splitlines()):
            ck.viol("%s %s: %s wrote events" % (f, how, what))

    # ---- served: every target, every energy
    cm = []
    M = ck.thorough(40, 700)
    th = {za: [t for t in data().mc.thresholds(za) if 0 < t < 20] for za in NI}
    for za in NI:
        es = [2.53e-8, 1e-11, 1e-5, 0.5, 1.0, 5.0, 19.9, 20.0, 19.999999]
        es += [10 ** rng.uniform(-11, 0) for _ in range(M // 5)] + [rng.uniform(0, 20) for _ in range(M)] + [rng.randrange(1, 201) / 10 for _ in range(M // 4)]
        es += [min(20.0, max(1e-9, t + s * 10 ** rng.uniform(-7, -1))) for t in th[za] for s in (1, -1)]
        cm += ["yields %d %.10g %d %s/sy %d" % (za, e, rng.choice([1, 2, 5]), scratch(), rng.randrange(1, 1 << 31)) if rng.random() < 0.5 else "ev %d %.10g 0 %g %d" % (za, e, rng.choice(WINDOWS), rng.randrange(1, 1 << 31)) for e in es]
    for za in SF:
        cm += ["ev %d 0 0 %g %d" % (za, rng.choice(WINDOWS), rng.randrange(1 << 31)) for _ in range(4)]
    rng.shuffle(cm)
    cm = [c.replace("/sy ", "/sy%d " % i) for i, c in enumerate(cm)]
    for r in runmany(b, [(c, rundir("std", ls)) for c in chunks(cm, 4 * NPROC)]):
        if finished(ck, r):
            for c in r.cmds: ck.ok("supported requests", " ".join(c.split()[:3]))
    for c in cm:
        w = c.split()
        if w[0] == "yields":
            p = w[4]
            n = len([l for l in open(p) if l.strip()]) if os.path.exists(p) else -1
            if n != 2 * int(w[3]): ck.viol("'%s' wrote %d lines, expected %d" % (c, n, 2 * int(w[3])))
    # ways to name the data directory
    for how, args, env in (("-d", ["-d", REPO + "/data"], {}), ("-d with slash", ["-d", DATA], {}), ("CGMFDATA", [], {"CGMFDATA": REPO + "/data"}), ("CGMFDATA with slash", [], {"CGMFDATA": DATA}), ("built-in", [], {"CGMFDATA": None}), ("-d over CGMFDATA", ["-d", DATA], {"CGMFDATA": "/nonexistent"})):
        e2 = dict(ENV); e2.update({k: v for k, v in env.items() if v}); [e2.pop(k) for k, v in env.items() if not v]
        d = fresh("std", ls)
        rc, so, se = prog(x, ["-i", 92235, "-e", "2.53e-8", "-n", 2] + args, d, e2)
        ck.ok("data directory " + how, how)
        if rc or not os.path.exists(d + "/histories.cgmf.0"): ck.viol("data directory given by %s: status %d, %s" % (how, rc, se[-200:].decode(errors="replace")))
        shutil.rmtree(d)


# --------------------------------------------------------------- C20
def num(text, label):
    m = re.search(re.escape(label) + r"\s*=\s*\(?(-?[\d.]+|-?nan|-?inf)(?:,(-?[\d.]+))?", text)
    return None if not m else tuple(float(v) for v in m.groups() if v)


def flat(e):
    v = dict(e)
    for S in "LH":
        v.update(zip((S + k for k in ("A", "Z", "KE", "KEp", "U", "J", "P", "Nn", "Ng")), e[S]))
        for k in ("A", "Z", "P", "Nn", "Ng"): v[S + k] = int(v[S + k])
    v["pn"] = e["npre"]
    return v


def summary_oracle(so, evs, za, e):
    """the printed averages against the averages of the (unrounded) events; None if the text was not understood"""
    n = len(evs)
    S = lambda f: sum(f(v) for v in evs)
    nl, nh, npre = S(lambda v: v["LNn"]), S(lambda v: v["HNn"]), S(lambda v: v["pn"])
    out = {}
    mean = lambda a, k: a / max(k, 1)
    exp = [("Average Light Fragment (Z,A)", (S(lambda v: v["LZ"]) / n, S(lambda v: v["LA"]) / n)), ("Average Heavy Fragment (Z,A)", (S(lambda v: v["HZ"]) / n, S(lambda v: v["HA"]) / n)),
           ("<TKE>", (S(lambda v: v["LKE"] + v["HKE"]) / n,)), ("<TXE>", (S(lambda v: v["LU"] + v["HU"]) / n,)), ("<J>_LF", (S(lambda v: v["LJ"]) / n,)), ("<J>_HF", (S(lambda v: v["HJ"]) / n,)),
           ("<J>", (S(lambda v: v["LJ"] + v["HJ"]) / 2 / n,)), ("<nu>_LF", (nl / n,)), ("<nu>_HF", (nh / n,)), ("<nu>_prefission", (npre / n,)), ("<nu>_tot", ((nl + nh + npre) / n,)),
           ("<Ecm>_LF", (mean(S(lambda v: sum(v["cE"][:v["LNn"]])), nl),)), ("<Ecm>_HF", (mean(S(lambda v: sum(v["cE"][v["LNn"]:])), nh),)),
           ("<Elab>_LF", (mean(S(lambda v: sum(v["nE"][:v["LNn"]])), nl),)), ("<Elab>_HF", (mean(S(lambda v: sum(v["nE"][v["LNn"]:])), nh),)),
           ("<Ecm>_tot", (mean(S(lambda v: sum(v["cE"]) + sum(v["pE"])), nl + nh + npre),)), ("<Elab>_tot", (mean(S(lambda v: sum(v["nE"]) + sum(v["pE"])), nl + nh + npre),)),
           ("<Elab>_prefission", (mean(S(lambda v: sum(v["pE"])), npre),)), ("<Ecm>_prefission", (mean(S(lambda v: sum(v["pE"])), npre),)),
           ("<nu_g>_LF", (S(lambda v: v["LNg"]) / n,)), ("<nu_g>_HF", (S(lambda v: v["HNg"]) / n,)), ("<nu_g>_tot", (S(lambda v: v["LNg"] + v["HNg"]) / n,)),
           ("<Eg>_LF", (mean(S(lambda v: sum(v["gE"][:v["LNg"]])), S(lambda v: v["LNg"])),)), ("<Eg>_HF", (mean(S(lambda v: sum(v["gE"][v["LNg"]:])), S(lambda v: v["HNg"])),)),
           ("<Eg>_tot", (mean(S(lambda v: sum(v["gE"])), S(lambda v: v["LNg"] + v["HNg"])),))]
    bad = []; seen = 0
    for lab, want in exp:
        got = num(so, lab)
        if got is None: continue
        seen += 1
        for g, w in zip(got, want):
            if not abs(g - w) <= 0.00501: bad.append("%s printed %.2f, events give %.4f" % (lab, g, w))
    for lab, i in (("Average Kinetic Energies", ("LKE", "HKE")), ("Average Excitation Energies", ("LU", "HU"))):
        m = re.search(lab + r": LF = ([-\d.]+) MeV ; HF = ([-\d.]+)", so)
        if m:
            seen += 1
            for g, k in zip(m.groups(), i):
                w = S(lambda v: v[k]) / n
                if not abs(float(g) - w) <= 0.00501: bad.append("%s %s printed %s, events give %.4f" % (lab, k, g, w))
    m = re.search(r"spontaneous fission of \(\s*(\d+),\s*(\d+)\)", so)
    if m:
        seen += 1
        if e > 0 or int(m.group(1)) * 1000 + int(m.group(2)) != za: bad.append("summary names the reaction '%s'" % m.group(0))
    m = re.search(r"\(n,f\) on \(\s*(\d+),\s*(\d+)\) at En=\s*([\d.e+-]+)", so)
    if m:
        seen += 1
        if e == 0 or int(m.group(1)) * 1000 + int(m.group(2)) != za or abs(float(m.group(3)) - e) > 0.0051 * e: bad.append("summary names the reaction '%s'" % m.group(0))
    return bad, seen


def C20(ck):
    ck.rule = "one evaluation per event or yields pair compared; distinct by (reaction, energy, event number)"
    ck.assume = ["values are compared after rounding to the printed digits"]
    x = build_main("opt"); b = build("opt")
    rng = ck.rng; ls = 1 + ck.seed % 5
    jobs = []
    for i in range(ck.thorough(60, 600)):
        za, e = reaction(rng, hi=0.6)
        w = rng.choice([None, None, -1.0, -1.0, 0.0, 1e-6, 1e-9, 3e-8, 1.25e-7, 2.34567e-9])
        n = rng.choice([1, 2, 7, 20, 33, 40]); s = rng.choice([None, None, 1, 2, rng.randrange(1, 5000), rng.randrange(1, 1 << 30)])
        jobs.append(("h", za, e, w, n, s, rng.choice(["std", "isomer", "noic", "highic"])))
    for i in range(ck.thorough(16, 120)):
        za, e = reaction(rng, hi=0.6)
        jobs.append(("y", za, e, None, rng.choice([1, 5, 200]), rng.choice([None, 1, rng.randrange(1, 1 << 30)]), "std"))
    for i in range(ck.thorough(36, 200)):       # short runs at high energy: the figures of single multi-chance events
        za, e = (92238, rng.uniform(19.5, 20)) if i % 3 else (rng.choice(NI), rng.uniform(15, 20))
        jobs.append(("h", za, float("%.6g" % e), rng.choice([None, -1.0]), rng.choice([1, 1, 2, 3]), rng.randrange(1, 1 << 30), "std"))
    if ck.tier == "thorough": jobs.append(("h", 92235, 2.53e-8, None, 1000, None, "std"))   # progress output, many events
    jobs.sort(key=lambda j: -j[4])
    for p in set(j[6] for j in jobs): rundir(p, ls)
    tol = 0.5e-3 + 1e-9
    def one(j):
        k, za, e, w, n, s, prof = j
        d = fresh(prof, ls)
        args = ["-i", za, "-e", "%.10g" % e, "-n", n if k == "h" else -n]
        if w is not None: args += ["-t", "%g" % w]
        if s is not None: args += ["-s", s]
        jr = random.Random(repr((ck.seed, j)))
        name = jr.choice([None, "out", d + "/sub.out"])
        if name: args += ["-f", name]
        env = None
        if jr.random() < 0.25:      # the option names the data, whatever the environment says
            args += ["-d", DATA]; env = dict(ENV); env["CGMFDATA"] = jr.choice(["/nonexistent", d])
        rc, so, se = prog(x, args, d, env)
        f = (d + "/" + name if name and not name.startswith("/") else name) or d + "/" + ("histories.cgmf" if k == "h" else "yields.cgmf")
        f += ".0"
        text = open(f).read() if os.path.exists(f) else None
        s0 = 1 if s is None else s
        if k == "h":
            r = run1(b, ["ev %d %.10g 0 %g %d" % (za, e, 1e-8 if w is None else w, s0 + i) for i in range(n)], d)
        else:
            r = run1(b, ["ff %d %.10g %d %d" % (za, e, n, s0)], d) if b.has("internal") else None
        shutil.rmtree(d)
        return j, args, rc, so.decode(errors="replace"), se, text, r
    for j, args, rc, so, se, text, r in pmap(one, jobs):
        k, za, e, w, n, s, prof = j
        cmd = "cgmf.x " + " ".join(str(a) for a in args)
        if rc or text is None:
            ck.viol("'%s' ends with status %d, file %s: %s" % (cmd, rc, text is not None, se[-200:].decode(errors="replace"))); continue
        bad = []
        if k == "y":
            try: rows = hist.parse_yields(text)
            except (hist.Bad, ValueError) as ex:
                ck.viol("'%s': %s" % (cmd, ex)); continue
            if len(rows) != 2 * n: bad.append("%d lines for %d events" % (len(rows), n))
            if r is not None and finished(ck, r):
                for i, q in enumerate(r.recs[:-1]):
                    for o, side in ((0, "L"), (1, "H")):
                        if 2 * i + o >= len(rows): break
                        row = rows[2 * i + o]
                        A, Z, KE, TKE, U, J, P = q[side][:7]
                        want = [Z, A, KE, U, J, P] + q[side + "pre"]
                        for nm, g, wv in zip(("Z", "A", "KE", "U", "J", "P", "px", "py", "pz"), row, want):
                            if abs(g - wv) > 6e-6 * abs(wv) + 1e-9: bad.append("pair %d %s %s written %g, generated %.8g" % (i, side, nm, g, wv))
                    ck.ok("yields pairs", (za, e, i, "y"))
            for q in bad[:3]: ck.viol("%s ('%s')" % (q, cmd), {"cmd": cmd})
            continue
        try: head, evs = hist.parse(text)
        except (hist.Bad, ValueError) as ex:
            ck.viol("'%s' writes a malformed file: %s" % (cmd, ex)); continue
        ww = 1e-8 if w is None else w
        if head[0] != za or abs(head[1] - e) > 6e-6 * e or abs(head[2] - ww) > 6e-6 * abs(ww): bad.append("header %s for target %d at %g MeV with window %g" % (head, za, e, ww))
        if len(evs) != n: bad.append("%d events written, %d requested" % (len(evs), n))
        if not finished(ck, r): continue
        q = [flat(z) for z in r.recs[:-1]]
        for i, (v, (L, H, pre)) in enumerate(zip(q, evs)):
            b0 = len(bad)
            for S, F, o in (("L", L, 0), ("H", H, 1)):
                def cmp(nm, g, wv, t=tol):
                    if not abs(g - wv) <= t: bad.append("event %d %s %s written %g, event has %.6f" % (i, S, nm, g, wv))
                for nm, kk in (("A", "A"), ("Z", "Z"), ("P", "P"), ("nn", "Nn"), ("ng", "Ng")):
                    cmp(nm, F[nm], v[S + kk], 0)
                cmp("J", F["J"], v[S + "J"], 1e-9)
                for nm in ("U", "KE"): cmp(nm, F[nm], v[S + nm])
                cmp("KEpost", F["KEpost"], v[S + "KEp"])
                for c in range(3):
                    cmp("pre" + "xyz"[c], F["pre"][c], v[S + "pre"][c]); cmp("post" + "xyz"[c], F["post"][c], v[S + "post"][c])
                n0 = 0 if S == "L" else v["LNn"]; g0 = 0 if S == "L" else v["LNg"]
                if F["nn"] == v[S + "Nn"] and F["ng"] == v[S + "Ng"]:
                    for a in range(F["nn"]):
                        for nm, c, kk in (("cm", "c", ("u", "v", "w", "E")), ("lab", "n", ("u", "v", "w", "E"))):
                            for c_, z in enumerate(kk): cmp("%s neutron %d %s" % (nm, a, z), F[nm][a][c_], v[c + z][n0 + a])
                    for a in range(F["ng"]):
                        for c_, z in enumerate(("u", "v", "w", "E")): cmp("photon %d %s" % (a, z), F["g"][a][c_], v["g" + z][g0 + a])
                        if ww < 0: cmp("photon %d age" % a, F["g"][a][4], v["gt"][g0 + a], 6e-6 * abs(v["gt"][g0 + a]) + 1e-300)
            if len(pre) != v["pn"]: bad.append("event %d: %d pre-fission neutrons written, event has %d" % (i, len(pre), v["pn"]))
            else:
                for a in range(len(pre)):
                    for c_, z in enumerate(("u", "v", "w", "E")):
                        if not abs(pre[a][c_] - v["p" + z][a]) <= tol: bad.append("event %d pre-fission neutron %d %s written %g, event has %.6f" % (i, a, z, pre[a][c_], v["p" + z][a]))
            ck.ok("history events", (za, e, i, s))
        sb, seen = summary_oracle(so, q, za, e)
        bad += sb
        ck.ok("summary figures", n=seen)
        for t in bad[:3]: ck.viol("%s ('%s', levels %s)" % (t, cmd, prof), {"cmd": cmd})
        ck.sample({"cmd": cmd, "events": len(evs), "header": head, "summary figures checked": seen})
    if not ck.counts.get("summary figures"):
        ck.viol("the program prints no summary averages")
