"""C23: nuclear data served by the library against the data files, read independently."""
import re
from vlib import *
from work import *
import evoracle as ev, ymodel
import numpy as np


def kck(D):
    """level-density systematics: pairing, shell, match energy, a, temperature, E0"""
    out = {}
    for l in D.rows("kcksyst.dat"):
        w = l.split()
        if len(w) < 10:
            continue
        v = [float(x) for x in w[2:10]]
        out[1000 * int(w[0]) + int(w[1])] = v[:4] + (v[4:6] if v[2] > 0 else v[6:8])
    return out


def want_levels(tab, z):
    lv = tab.get(z)
    if lv is None:
        Z, N = z // 1000, z % 1000 - z // 1000
        s = 0.0 if Z % 2 == 0 and N % 2 == 0 else (1.0 if Z % 2 and N % 2 else .5)
        return [(0.0, s, 1, None, None)]
    out = []
    for e, s, p, hl, g in lv:
        if not g:
            out.append((e, s, p, hl, None)); continue
        t = sum(x[1] for x in g)
        out.append((e, s, p, hl, [(f, b / t, 1 / (1 + ic)) if t > 0 else (f, 1. / len(g), 1.) for f, b, ic in g]))
    return out


def no_photon(w, k):
    """levels without listed photons: E1 where possible, else the closest spin of lowest energy, never 0 to 0"""
    if k == 1:
        return [0]
    _, s, p = w[k][:3]
    c = [(i, int(abs(v[1] - s)), v[2]) for i, v in enumerate(w[:k]) if s or v[1]]
    e1 = [i for i, d, q in c if q != p and d <= 1][:60]
    return e1 or [i for i, d, _ in c if d == min(x[1] for x in c)][:1] or [0]


def cmp_levels(ck, tab, x, what):
    z = 1000 * x["Z"] + x["A"]
    w = want_levels(tab, z)
    ck.ok("nuclei whose levels were compared", (what, z))
    if x["nd"] != len(w):
        ck.viol("%s: Z=%d A=%d has %d levels, the file %d" % (what, x["Z"], x["A"], x["nd"], len(w))); return
    for k, (g, e) in enumerate(zip(x["lev"], w)):
        ck.ok("levels")
        if abs(g[0] - e[0]) > 1e-9 or g[1] != e[1] or g[2] != e[2] or (e[3] is not None and abs(g[3] - e[3]) > 1e-9 * abs(e[3])):
            ck.viol("%s: Z=%d A=%d level %d is %s, the file says %s" % (what, x["Z"], x["A"], k, g[:4], e[:4])); return
        if k == 0:
            continue
        if e[4] is None:
            f = no_photon(w, k)
            ck.ok("levels without listed photons", (what, z, k))
            if [q[0] for q in g[4]] != f or any(abs(q[1] - 1. / len(f)) > 1e-9 or q[2] != 1 for q in g[4]):
                ck.viol("%s: Z=%d A=%d level %d has no listed photon and decays as %s, not equally to %s" % (what, x["Z"], x["A"], k, g[4], f)); return
        elif len(g[4]) != len(e[4]) or any(a[0] != b_[0] or abs(a[1] - b_[1]) > 1e-9 or abs(a[2] - b_[2]) > 1e-9 for a, b_ in zip(g[4], e[4])):
            ck.viol("%s: Z=%d A=%d level %d branches %s, the file says %s" % (what, x["Z"], x["A"], k, g[4], e[4])); return


def C23(ck):
    ck.rule = "one evaluation per value compared; distinct by (table, nucleus)"
    ck.assume = ["levels without listed photons decay by E1 to all levels it can reach, otherwise to the closest spin (the rule of ripl2levels.cpp)", "nuclei missing in the temperature and level-density-parameter tables get 5, missing deformations 0.2"]
    D = data()
    M = ymodel.Models(D)
    b = build("opt")
    rng = ck.rng
    if not b.has("internal"):
        return public(ck, b, D)
    K = kck(D)
    cmds = []
    for z in sorted(D.mass):
        cmds.append("data mass %d" % z)
        if z > 1: cmds.append("data mass2 %d" % z)
    cmds = [c for c in cmds if D.mass[int(c.split()[-1])] != 0.0]
    dz = sorted(set(M.beta2) | {1000 * Z + A for Z in range(20, 80, 3) for A in range(2 * Z, min(199, 3 * Z), 4)})
    cmds += ["data defo %d" % z for z in dz]
    for z in sorted(M.temp):
        for _ in range(ck.thorough(3, 30)):
            u = rng.choice([0., rng.choice(M.grid[:-1]), rng.uniform(0, 12), rng.uniform(0, 60), rng.uniform(60, 99.99), math.nextafter(rng.choice(M.grid[1:-1]), 0)])
            cmds += ["data temp %d %.17g" % (z, u), "data ldp %d %.17g" % (z, u)]
    miss = [1000 * Z + A for Z in (22, 40, 50, 60, 70, 80) for A in (4 * Z + 5, 2 * Z - 3) if 1000 * Z + A not in M.temp]
    cmds += ["data temp %d 5.5" % z for z in miss] + ["data ldp %d 77" % z for z in miss]
    cmds += ["data kck %d" % z for z in sorted(K) if K[z][1] != 0.0]
    zs = [z for z in sorted(D.mass) if z // 1000 >= 20 and all(z - k in D.mass and D.mass[z - k] != 0 for k in range(13))]
    cmds += ["data sn %d %d" % (z, rng.randrange(1, 9)) for z in rng.sample(zs, ck.thorough(2000, len(zs)))]
    # twice, in different orders, with events in between
    # every reader of one process sees the full shuffled list: order independence
    reps = ck.thorough(1, 4)
    jobs = []
    for _ in range(reps):
        a = list(cmds); rng.shuffle(a)
        for c in chunks(a, NPROC):
            e = event_cmds(rng, 4)
            for q in e:
                c.insert(rng.randrange(len(c)), q)
            k = rng.randrange(len(c)); c[k:k] = ["del", "cleanup"]
            again = rng.sample([q for q in c if q.startswith("data")], 200)
            jobs.append((c + again, rundir("std", 1)))
    # the tables are read again after clean-up: also from a directory of its own
    for r in runmany(b, jobs):
        if not finished(ck, r):
            continue
        for c, x in zip(r.cmds, r.recs):
            if x.get("k") != "data":
                continue
            w, z, e, v = x["w"], x["za"], x["e"], x["v"]
            ck.ok(w, (w, z))
            if w in ("mass", "mass2"): exp, tol = D.mass[z], 1e-9 if w == "mass" else 4e-5
            elif w == "defo": exp, tol = M.beta(z), 1e-9
            elif w in ("temp", "ldp"):
                t = (M.temp if w == "temp" else M.ldp).get(z)
                if t is not None and t[0] == 0.0: t = None      # the table's mark of a missing nucleus
                exp = float(np.interp(e, M.grid, t)) if t else 5.0
                tol = 1e-7 * max(1, abs(exp))
            elif w == "kck":
                for nm, a, q in zip(("pairing", "shell", "match energy", "a", "temperature", "E0"), x["t"], K[z]):
                    if abs(a - q) > 1e-9 * max(1, abs(q)):
                        ck.viol("level-density systematics of %d: %s is %.9g, the file says %.9g" % (z, nm, a, q))
                continue
            elif w == "sn":
                Z, A = z // 1000, z % 1000
                for k, s in enumerate(x["t"]):
                    if abs(s - D.Sn(Z, A - k)) > ev.SNTOL:
                        ck.viol("separation energy of Z=%d A=%d is %.6f, the mass table gives %.6f" % (Z, A - k, s, D.Sn(Z, A - k)))
                for u, n in zip(np.arange(1, 60, 3.7), x["tot"]):
                    def possible(left):
                        q = 0
                        while q < 10:
                            left -= D.Sn(Z, A - q)
                            if left <= 0: break
                            q += 1
                        return q
                    lo, hi = possible(u - .005), possible(u + .005)
                    if hi < 9 and not lo <= n <= hi:
                        ck.viol("Z=%d A=%d at %.1f MeV: %d neutrons possible, the mass table gives %d" % (Z, A, u, n, lo))
                continue
            if not (isinstance(v, (int, float)) and abs(v - exp) <= tol):
                ck.viol("%s of %d%s is %s, the data file gives %.9g ('%s')" % ({"mass": "mass excess", "mass2": "mass excess (decay)", "defo": "deformation", "temp": "temperature", "ldp": "level-density parameter"}[w], z, " at %.6g MeV" % e if w in ("temp", "ldp") else "", v, exp, c))
            ck.sample({"what": w, "nucleus": z, "E": e, "served": v})
    # discrete levels
    jobs, info = [], []
    for p in PROFILES + ["limits", "unassigned"]:
        s = 1 + ck.seed % 5
        tab = level_table(p, s)
        ask = sorted(tab)
        rng.shuffle(ask)
        ask = ask[:ck.thorough(400, 5000)]
        ask += [z + 1 for z in ask[:60]] + [z - 7 for z in ask[:20]] + [92239, 94240, 98252, 26056, 82208]
        cm = ["%s %d %d %d" % (rng.choice(["levels", "rlevels"]), z // 1000, z % 1000, rng.randrange(0, 7)) for z in ask]
        for c in chunks(cm, 2):
            k = len(c) // 2
            c[k:k] = event_cmds(rng, 1)
            jobs.append((c, rundir(p, s))); info.append((p, tab))
    for r, (p, tab) in zip(runmany(b, jobs), info):
        if not finished(ck, r):
            continue
        for x in r.recs:
            if x.get("k") == "levels":
                cmp_levels(ck, tab, x, "level file %s" % p)
    overrides(ck, b, rng)
    # yield-model parameters: the tables built from them
    import c_models
    cm = ["yld %d %.10g %d" % (z, e, rng.randrange(1, 1 << 30)) for z, e in c_models.reactions(rng, ck.thorough(1, 6))]
    rng.shuffle(cm)
    _, MM = c_models.models()
    ck.findings = load_findings("C10")
    for r in runmany(b, [(c, rundir("promptonly", 1)) for c in chunks(cm, NPROC)]):
        if not finished(ck, r):
            continue
        for x in r.recs:
            if x.get("k") == "yld":
                c_models.table(ck, D, MM, x)
    ck.knowns.clear()           # the recorded finding of C10 is reported there


# files the library looks for in the working directory first; True: a change in the first decimal is needed to be visible
LOCAL = {"masses": 0, "deformations": 1, "temperatures": 1, "ldp": 0, "kcksyst": 0, "anisotropy": 0, "preeq-scattering-params": 1, "preeq-params": 1, "spinscalingmodel": 1, "rta": 0}


def altered(t, first):
    def f(m):
        w = list(m.group(0))
        k = w.index(".") + 1 if first else len(w) - 1
        w[k] = "4" if w[k] != "4" else "6"
        return "".join(w)
    return "".join(l if l.startswith("#") else re.sub(r"\d\.\d\d+", f, l) for l in t.splitlines(True))


def overrides(ck, b, rng):
    """an altered data file acts the same from the working directory as from the data directory given to the library"""
    cm = []
    for z in (92233, 92235, 92238, 93237, 94239):
        cm += ["ev %d %.9g 0 -1 %d" % (z, e, rng.randrange(1, 1 << 30)) for e in (2.53e-8, rng.uniform(.5, 5), 14.1, rng.uniform(14, 20), 16., 17., 18., 19., 20., 20.)]
    cm += ["ev 98252 0 0 -1 %d" % rng.randrange(1, 1 << 30) for _ in range(5)]
    if b.has("internal"):
        cm += ["data defo %d" % z for z in (38096, 42104, 54140, 60150)]
        cm += ["ffs %d %.7g 20 %d" % (z, rng.uniform(17., 20.), rng.randrange(1, 1 << 30)) for z in (92233, 92235, 92238, 93237, 94239) * 8]
    d0 = rundir("std", 1)
    base = os.path.join(scratch(), "over"); os.makedirs(base)
    def go(x):
        n, where = x
        c, dp = d0, None
        if n:
            t = altered(open(REPO + "/data/%s.dat" % n).read(), LOCAL[n])
            d = os.path.join(base, n + where)
            if where == "cwd":
                os.makedirs(d); os.symlink(d0 + "/discreteLevels.dat", d + "/discreteLevels.dat"); c = d
            else:
                os.makedirs(d)
                for g in os.listdir(REPO + "/data"): os.symlink(REPO + "/data/" + g, d + "/" + g)
                os.remove(d + "/%s.dat" % n); dp = d + "/"
            open(d + "/%s.dat" % n, "w").write(t)
        return [json.dumps({k: v for k, v in q.items() if k != "cwd"}, sort_keys=True) for q in run1(b, cm, c, datapath=dp).recs]
    jobs = [("", "")] + [(n, w) for n in LOCAL for w in ("cwd", "dir")]
    out = dict(zip(jobs, pmap(go, jobs)))
    shutil.rmtree(base)
    ref = out[("", "")]
    for n in LOCAL:
        a, c = out[(n, "cwd")], out[(n, "dir")]
        changed = sum(x != y for x, y in zip(c, ref))
        ck.ok("answers from a data file in the working directory", (n,), n=len(c))
        ck.counts["answers changed by altering " + n] = changed
        if len(a) != len(c) or a != c:
            ck.viol("an altered %s.dat acts differently in the working directory and in the data directory (%d of %d answers)" % (n, sum(x != y for x, y in zip(a, c)) + abs(len(a) - len(c)), len(c)))


def public(ck, b, D):
    """without the internal headers the data show in the events: masses through the energy balance"""
    for p, tab, c, e in run_events(ck, b, 1500):
        for q in ev.o_scission(D, e):
            ck.viol("%s ('%s')" % (q, " ".join(c)))
        ck.ok("events", key(e))
