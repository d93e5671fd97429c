"""C10-C13, C26: sampled fragments against the tabulated models, by probability integral transforms."""
from vlib import *
from work import *
import evoracle as ev, stats, ymodel, hist
import numpy as np

NORM = math.sqrt(2.)


def models():
    D = data()
    if not hasattr(D, "models"):
        D.models = ymodel.Models(D)
    return D, D.models


def Phi(x):
    return .5 * math.erfc(-x / NORM)


def yrows(text):
    return [dict(zip(("Z", "A", "KE", "U", "J", "P", "px", "py", "pz"), r)) for r in hist.parse_yields(text)]


class Pit:
    """collects probability integral transforms per group and judges uniformity"""
    def __init__(self, what, slack=0.0):
        self.what, self.g, self.slack = what, {}, slack
    def add(self, u, *groups):
        for g in ("all",) + groups:
            self.g.setdefault(g, []).append(u)
    def judge(self, ck):
        worst = 1.0
        for g, us in self.g.items():
            p, d = stats.ks_uniform(us)
            if self.slack and p < stats.ALPHA:
                n = len(us)
                p = min(1., 2 * math.exp(-2 * n * max(0., d - self.slack) ** 2))
            # first moments
            n = len(us)
            m = sum(us) / n
            pm = 1.0
            if n >= 50:
                z = (abs(m - .5) - self.slack / 2) / math.sqrt(1 / 12. / n)
                pm = stats.ztwo(z) if z > 0 else 1.0
                v = sum((u - .5) ** 2 for u in us) / n
                z = (abs(v - 1 / 12.) - self.slack / 2) / math.sqrt(1 / 180. / n)
                pm = min(pm, stats.ztwo(z) if z > 0 else 1.0)
            # the tails, which neither of the above sees
            if n >= 2000 and not self.slack:
                for q in (1e-3, 1e-2):
                    pm = min(pm, stats.binom_p(sum(u < q for u in us), n, q), stats.binom_p(sum(u > 1 - q for u in us), n, q))
            worst = min(worst, p, pm)
            if min(p, pm) < stats.ALPHA:
                ck.viol("%s: the sample does not follow the model (group %s, n=%d, D=%.4f, mean of transform %.4f, p=%.2g)" % (self.what, g, n, d, m, min(p, pm)))
        ck.extra["%s: groups, sample size, smallest p" % self.what] = [len(self.g), len(self.g.get("all", [])), float("%.3g" % worst)]


def reactions(rng, ntimes, energies=None):
    """every reaction; energies spread over first-chance, multi-chance and special points"""
    out = [(z, 0.0) for z in SF for _ in range(ntimes)]
    for z in NI:
        for k in range(ntimes):
            out += [(z, rng.choice([2.53e-8, 1e-3, rng.uniform(.01, .5)])), (z, rng.uniform(.5, 5.)), (z, rng.uniform(5., 9.)), (z, rng.uniform(9., 14.)), (z, rng.uniform(14., 20.))]
    return [(z, float("%.7g" % e)) for z, e in out]


def pairs(ck, ntimes, nsf, nni, mixed=True):
    """initial fragment pairs of every reaction; yields dicts.  Alternates the library's own sampler and
    the public yields interface (whose file carries six significant digits)."""
    D, M = models()
    b = build("opt")
    internal = b.has("internal")
    jobs, info = [], []
    d = rundir("promptonly", 1)
    for i, (z, e) in enumerate(reactions(ck.rng, ntimes)):
        n = nsf if e == 0 else (nni if e < 9 else max(60, nni // 3))
        s = ck.rng.randrange(1, 1 << 30)
        if internal and i % 3:
            jobs.append((["ff %d %.10g %d %d" % (z, e, n, s)], d)); info.append((z, e, None))
        else:
            fn = "%s/p%d" % (scratch(), i)
            jobs.append((["yields %d %.10g %d %s %d" % (z, e, n, fn, s)], d)); info.append((z, e, fn))
    # independent single events: the fission chance is drawn anew
    if internal and mixed:
        per = ck.thorough(14, 150)
        for z in NI:
            for _ in range(4):
                e = float("%.7g" % ck.rng.uniform(6, 20))
                jobs.append((["ff %d %.10g 1 %d" % (z, e, ck.rng.randrange(1, 1 << 30)) for _ in range(per)], d)); info.append((z, e, None))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][0][0].startswith("yields") - info[i][1])
    res = runmany(b, [jobs[i] for i in order])
    for i, r in zip(order, res):
        z, e, fn = info[i]
        if not finished(ck, r):
            continue
        Zc, A0 = nuc.compound(z, e)
        if fn:
            rows = yrows(open(fn).read())
            recs = [{"L": (a["A"], a["Z"], a["KE"], 0, a["U"], a["J"], a["P"]), "H": (h["A"], h["Z"], h["KE"], 0, h["U"], h["J"], h["P"]),
                     "Lpre": (a["px"], a["py"], a["pz"]), "Hpre": (h["px"], h["py"], h["pz"]), "rounded": True} for a, h in zip(rows[::2], rows[1::2])]
            os.unlink(fn)
        else:
            recs = [x for x in r.recs if x.get("k") == "ff"]
        for x in recs:
            L, H = x["L"], x["H"]
            Ac = int(L[0] + H[0])
            n = A0 - Ac
            try:
                Q = D.me(Zc, Ac) - D.me(int(L[1]), int(L[0])) - D.me(int(H[1]), int(H[0]))
            except KeyError:
                ck.viol("pair outside the mass table in '%s'" % r.cmds[0]); continue
            tke = L[2] + H[2]
            if n == 0:
                exc = e + (D.Sn(Zc, A0) if e > 0 else 0.)
            else:
                exc = L[4] + H[4] + tke - Q
            x.update(zt=z, e=e, Zc=Zc, A0=A0, Acn=Ac, n=n, Q=Q, tke=tke, exc=exc, eff=(e if n == 0 else exc - D.Sn(Zc, Ac)) if e > 0 else 0.0, cmd=r.cmds[0])
            if not 0 <= n <= 3 or (n and e == 0):
                ck.viol("'%s': %d nucleons missing" % (r.cmds[0], n)); continue
            yield x


def C10(ck):
    ck.rule = "one evaluation per sampled fragment pair and per tabulated yield compared; distinct by (reaction, energy, chance, A, Z)"
    ck.assume = ["statistical statements are rejected only at p < 1e-7", "charge systematics: Wahl LA-13928 with the release's odd-even coefficients, at the excitation of the initial compound nucleus"]
    D, M = models()
    rng = random.Random(3)
    b = build("opt")
    # the tables themselves
    if b.has("internal"):
        jobs = []
        cm = []
        for z, e in reactions(ck.rng, ck.thorough(2, 14)):
            cm.append("yld %d %.10g %d" % (z, e, ck.rng.randrange(1, 1 << 30)))
        for c in chunks(cm, 2 * NPROC):
            jobs.append((c, rundir("promptonly", 1)))
        for r in runmany(b, jobs):
            if not finished(ck, r):
                continue
            for x in r.recs:
                if x.get("k") == "yld":
                    table(ck, D, M, x)
    systems(ck, D, M, b)
    pa, pz, pt = Pit("mass yields"), Pit("charge given mass"), Pit("kinetic energy given mass")
    cache = {}
    agg = {}
    zsum = {}
    low = {}
    for x in pairs(ck, ck.thorough(1, 4), ck.thorough(15000, 60000), ck.thorough(3000, 12000)):
        cn0 = 1000 * x["Zc"] + x["A0"]
        sf = x["e"] == 0
        k = (cn0, sf, x["n"], round(x["eff"], 3 if x["n"] else 9))
        if k not in cache:
            if len(cache) > 4000: cache.clear()
            A, y = M.ya(cn0, sf, x["n"], x["eff"])
            cache[k] = (A, y, np.cumsum(y), M.tke(cn0, sf, x["n"], x["eff"], A, y))
        A, y, cy, (mean, av, sg) = cache[k]
        al, zl = int(x["L"][0]), int(x["L"][1])
        g = (x["zt"], "sf" if sf else ("chance %d" % (x["n"] + 1)))
        if 2 * al > A or y[al] <= 0:
            if y[al] <= 0 and y[max(0, al - 1)] < 3e-5 / 2 and y[al + 1] < 4e-5 and (y[al - 1] > 0 or y[al + 1] > 0):
                continue      # at the model's cut-off, within the rounding of the energy
            ck.viol("'%s': light fragment mass %d of %d has no yield" % (x["cmd"], al, A)); continue
        w = 2 * y[al] if 2 * al < A else y[al]
        lo = 2 * (cy[al] - y[al])
        pa.add(min(1., lo + rng.random() * w), g, (x["zt"],))
        t = agg.setdefault(g, [np.zeros(300), {}])
        t[0][al] += 1; t[1][k] = t[1].get(k, 0) + 1
        ck.ok("pairs (%s)" % ("yields interface" if x.get("rounded") else "sampler"), (x["zt"], round(x["e"], 3), x["n"], al, zl))
        # charge
        PE = x["e"] + D.Sn(x["Zc"], x["A0"]) if not sf else 0.0
        zd = M.zlight(x["Zc"], x["A0"], PE, al, A, ymodel.DZ_SF.get(x["zt"], 3))
        if zl not in zd or zd[zl] <= 0:
            ck.viol("'%s': charge %d for mass %d outside %s" % (x["cmd"], zl, al, sorted(zd))); continue
        acc = 0.0
        for zz in sorted(zd):
            if zz == zl: break
            acc += zd[zz]
        pz.add(acc + rng.random() * zd[zl], g)
        h = sum(zd[q] for q in zd if q % 2 == 0)
        s = zsum.setdefault(g, [0, 0., 0.]); s[0] += zl % 2 == 0; s[1] += h; s[2] += h * (1 - h)
        # kinetic energy: Gaussian truncated where no excitation energy is left
        ah = A - al
        mu, sig = float(av[ah]), float(sg[ah])
        top = Phi((x["Q"] + x["exc"] - mu) / sig)
        if top > 1e-6:
            pt.add(min(1., Phi((x["tke"] - mu) / sig) / top), g, ("Ah", ah // 6))
            mx = x["Q"] + x["exc"]
            for w in (1., 2., 3., 5., 8.):
                t = low.setdefault(w, [0, 0.0]); t[0] += x["tke"] > mx - w; t[1] += 1 - Phi((mx - w - mu) / sig) / top
            # for a large part of the sample the scaling is the energy dependence itself
        ck.sample({"za": x["zt"], "E": x["e"], "A": al, "Z": zl, "TKE": x["tke"], "model mean": mu, "width": sig, "Y(A)": float(y[al])})
    for q in (pa, pz, pt):
        q.judge(ck)
    for w, (o, m) in sorted(low.items()):
        from scipy.stats import poisson
        ck.extra["pairs with less than %g MeV of excitation energy: observed, expected" % w] = [o, round(m, 2)]
        if min(poisson.cdf(o, m), poisson.sf(o - 1, m)) < stats.ALPHA:
            ck.viol("%d pairs with less than %g MeV of total excitation energy, the kinetic-energy distribution gives %.2f" % (o, w, m))
    for g, (obs, ks) in agg.items():
        exp = np.zeros(300)
        for k, n in ks.items():
            A, y = M.ya(*k)
            f = np.zeros(300); h = A // 2
            f[:h + 1] = 2 * y[:h + 1]
            if A % 2 == 0: f[h] = y[h]
            exp += n * f
        idx = [i for i in range(300) if exp[i] > 0 or obs[i] > 0]
        p, c2, nd = stats.chi2_counts([obs[i] for i in idx], [exp[i] for i in idx])
        if p < stats.ALPHA:
            ck.viol("mass distribution of %s: chi2 %.1f for %d degrees of freedom (p=%.2g)" % (g, c2, nd, p))
    for g, (o, m, v) in zsum.items():
        if v > 4 and stats.zsum(o, m, v)[0] < stats.ALPHA:
            ck.viol("even-charge fragments of %s: %d, expected %.1f +- %.1f" % (g, o, m, math.sqrt(v)))


def systems(ck, D, M, b):
    """the parametrisation object, asked for every fission chance and for energies around the break points:
    mass yields, mean and width of the kinetic energy of every mass"""
    if not b.has("kernels"):
        return
    cm = []
    for z, sf in [(z, 1) for z in SF] + [(z, 0) for z in NI]:
        cn = z if sf else z + 1
        for _ in range(ck.thorough(1, 6)):
            q = []
            for n in ([0] if sf else [0, 1, 2, 3]):
                row = M.tke_rows.get(-cn if sf else cn - n)
                es = [0.0] if sf else [2.53e-8, ck.rng.uniform(.01, 1), ck.rng.uniform(1, 20)] if n == 0 else [ck.rng.uniform(-5, 0), ck.rng.uniform(0, 1), ck.rng.uniform(1, 12)]
                if row and not sf: es += [row[1] - 1e-3, row[1], row[1] + 1e-3]
                q += [(n, e) for e in es]
            ck.rng.shuffle(q)      # the answer must not depend on the one before
            cm.append("k_ysys %d %d " % (cn, sf) + " ".join("%d %.17g" % t for t in q))
    for r in runmany(b, [(c, rundir("promptonly", 1)) for c in chunks(cm, NPROC)]):
        if not finished(ck, r):
            continue
        for x in r.recs:
            if x.get("k") != "k_ysys":
                continue
            for q in x["q"]:
                n, e, sf = q["n"], q["e"], bool(x["sf"])
                A, y = M.ya(x["cn"], sf, n, e)
                mean, av, sg = M.tke(x["cn"], sf, n, e, A, y)
                nm = "parametrisation of compound nucleus %d after %d neutrons at %.6g MeV" % (x["cn"], n, e)
                ck.ok("parametrised fissioning systems", (x["cn"], sf, n, round(e, 2)))
                Y, m, w = np.array(q["Y"]), np.array(q["m"]), np.array(q["w"])
                if np.abs(Y - y[:A]).max() > 2e-9:
                    _, yr = M.ya(x["cn"], sf, n, e, True)
                    if np.abs(Y - yr[:A]).max() > 2e-9:
                        a = int(np.abs(Y - y[:A]).argmax())
                        ck.viol("%s: Y(%d) = %.8g, the data files give %.8g" % (nm, a, Y[a], y[a])); continue
                    mean, av, sg = M.tke(x["cn"], sf, n, e, A, yr)
                on = [a for a in range(1, A) if Y[a] > 0]
                for a in on:
                    h = max(a, A - a)
                    if abs(m[a - 1] - av[h]) > 1e-6 * av[h]:
                        ck.viol("%s: mean total kinetic energy of mass %d is %.6f MeV, the data files give %.6f" % (nm, a, m[a - 1], av[h])); break
                    if abs(w[a - 1] * math.sqrt(2 * math.pi) * sg[h] - 1) > 1e-6:
                        ck.viol("%s: width of the total kinetic energy of mass %d is %.6f MeV, the data files give %.6f" % (nm, a, 1 / w[a - 1] / math.sqrt(2 * math.pi), sg[h])); break


def table(ck, D, M, x):
    cn0 = 1000 * x["Zc"] + x["Ac0"]
    sf = x["einc"] == 0
    n = x["Ac0"] - x["Ac"]
    Y = np.zeros(300); Y[:len(x["YA"])] = x["YA"][:300]
    nm = "yld %d %g (chance %d, effective energy %.4f)" % (x["za"], x["einc"], n + 1, x["eff"])
    A, y = M.ya(cn0, sf, n, x["eff"])
    ck.ok("mass-yield tables", (x["za"], round(x["einc"], 4), n))
    if abs(Y.sum() - 1) > 1e-9:
        ck.viol("%s: mass yields sum to %.9f" % (nm, Y.sum()))
    r = Y[:A + 1]
    if np.abs(r - r[::-1]).max() > 1e-12:
        ck.viol("%s: mass yields not symmetric" % nm)
    if (Y < 0).any():
        ck.viol("%s: negative yield" % nm)
    if np.abs(Y - y).max() > 1e-9 + 1e-9:
        _, yr = M.ya(cn0, sf, n, x["eff"], True)
        if np.abs(Y - yr).max() < 1e-9:
            ck.known("symmetric-width", "the width of the symmetric mode grows with the energy coefficient of the first asymmetric mode (largest difference in Y(A) %.2g, %s)" % (np.abs(Y - y).max(), nm))
        else:
            a = int(np.abs(Y - y).argmax())
            ck.viol("%s: Y(%d)=%.6g, tabulated parametrisation gives %.6g" % (nm, a, Y[a], y[a]))
            return
    PE = x["einc"] + D.Sn(x["Zc"], x["Ac0"]) if not sf else 0.0
    w = M.wahl(x["Zc"], x["Ac0"], PE)
    dz = ymodel.DZ_SF.get(x["za"], 3)
    tab = {}
    t = x["YZA"]
    for i in range(0, len(t), 3):
        tab[(int(t[i + 1]), int(t[i]))] = t[i + 2]
    tot = {}
    for (a, z), v in tab.items():
        tot[a] = tot.get(a, 0.) + v
    for a in range(300):
        if Y[a] <= 0:
            continue
        if abs(tot.get(a, 0.) - Y[a]) > 1e-9:
            ck.viol("%s: charges of mass %d sum to %.9g, Y(A)=%.9g" % (nm, a, tot.get(a, 0.), Y[a])); break
        bad = [(z, tab.get((a, z), 0.), p * Y[a]) for z, p in ymodel.zdist(w, a, dz).items() if abs(tab.get((a, z), 0.) - p * Y[a]) > 1e-7]
        if bad:
            ck.viol("%s: Y(Z=%d,A=%d)=%.6g, systematics give %.6g" % (nm, bad[0][0], a, bad[0][1], bad[0][2])); break
    ck.ok("charge-yield entries", n=len(tab))


def C12(ck):
    ck.rule = "one evaluation per fragment; distinct by (fragment, spin, parity)"
    ck.assume = ["statistical statements are rejected only at p < 1e-7"]
    D, M = models()
    rng = random.Random(4)
    pj = Pit("initial spins")
    par = {}
    corr = {}
    pp = {}
    cache = {}
    for x in pairs(ck, ck.thorough(1, 4), ck.thorough(12000, 60000), ck.thorough(3000, 12000)):
        cn = 1000 * x["Zc"] + x["A0"] - x["n"]
        al = M.alpha(cn, x["e"] == 0, x["eff"])
        for s in "LH":
            F = x[s]
            A, Z, U, J, P = int(F[0]), int(F[1]), F[4], F[5], int(F[6])
            j, p = M.spin_dist(1000 * Z + A, U, al)
            o = .5 if A % 2 else 0.
            i = J - o
            if abs(i - round(i)) > 1e-9 or not 0 <= i < 50 or P not in (1, -1):
                ck.viol("'%s': fragment Z=%d A=%d has spin %g parity %d" % (x["cmd"], Z, A, J, P)); continue
            i = int(round(i))
            u = float(p[:i].sum()) + rng.random() * float(p[i])
            pj.add(u, (x["zt"], s), (x["zt"], "chance %d" % (x["n"] + 1)), ("U", min(6, int(U // 7))), ("A", A % 2, s), ("defo", round(M.beta(1000 * Z + A), 1)))
            c = par.setdefault((x["zt"], s), [0, 0]); c[0] += P > 0; c[1] += 1
            q = corr.setdefault("spin", [0., 0]); q[0] += P * (u - .5); q[1] += 1
            q = corr.setdefault("U", [0., 0]); q[0] += P * (1 if U > 12 else -1) / 3.4641; q[1] += 1
            ck.ok("fragments", (Z, A, i, P))
        k = (int(x["L"][6]), int(x["H"][6])); pp[k] = pp.get(k, 0) + 1
        ck.sample({"za": x["zt"], "E": x["e"], "L": x["L"][:7], "alpha": al})
    pj.judge(ck)
    for g, (k, n) in list(par.items()) + [("all", [sum(v[0] for v in par.values()), sum(v[1] for v in par.values())])]:
        if stats.binom_p(k, n, .5) < stats.ALPHA:
            ck.viol("parities of %s: %d of %d positive" % (g, k, n))
    n = sum(pp.values())
    if n:
        p, c2, nd = stats.chi2_counts([pp.get((a, b_), 0) for a in (1, -1) for b_ in (1, -1)], [n / 4.] * 4)
        if p < stats.ALPHA:
            ck.viol("parities of the two fragments are not independent: %s" % pp)
    for nm, (s, n) in corr.items():
        if stats.zsum(s, 0., n / 12.)[0] < stats.ALPHA:
            ck.viol("parity is correlated with %s (n=%d, sum %.1f)" % (nm, n, s))


def C26(ck):
    ck.rule = "one evaluation per fragment pair; distinct by (reaction, pair, rounded excitation energy)"
    ck.assume = ["the sharing is iterated to 0.01/MeV in the level-density parameter, as released", "outside the R_T(A) table the temperatures are equal"]
    D, M = models()
    nit = {}
    for x in pairs(ck, ck.thorough(1, 4), ck.thorough(12000, 60000), ck.thorough(3000, 12000)):
        L, H = x["L"], x["H"]
        zl, zh = int(1000 * L[1] + L[0]), int(1000 * H[1] + H[0])
        txe = L[4] + H[4]
        el, eh, n, rt, edge = M.share(x["zt"], zl, zh, txe)
        tol = (3e-4 if x.get("rounded") else 1e-6) * (1 + txe)
        ck.ok("pairs", (x["zt"], zl, zh, int(txe)))
        nit[n] = nit.get(n, 0) + 1
        if n > 10 or edge:
            ck.ok("pairs whose iteration does not settle (not judged)"); continue
        if abs(L[4] - el) > tol:
            # near the stopping rule one iteration more or less is a rounding matter
            al, ah = M.a(zl, el), M.a(zh, eh)
            eh2 = ah / (al * rt * rt + ah) * txe
            if x.get("rounded") and abs(L[4] - (txe - eh2)) <= max(tol, 0.03):
                ck.ok("pairs at the stopping rule"); continue
            ck.viol("'%s': fragments %d/%d with %.5f MeV to share got %.5f and %.5f, temperature ratio %.3f gives %.5f and %.5f" % (x["cmd"], zl, zh, txe, L[4], H[4], rt, el, eh))
        ck.sample({"za": x["zt"], "pair": [zl, zh], "TXE": txe, "UL": L[4], "expected": el, "R_T": rt, "iterations": n})
    ck.extra["iterations"] = nit


def C11(ck):
    ck.rule = "one evaluation per event; distinct by (target, energy, number of pre-fission neutrons)"
    ck.assume = ["statistical statements are rejected only at p < 1e-7", "the chance is drawn from the tabulated probabilities and lowered while the nucleus reached would be below its fission barrier"]
    D, M = models()
    b = build("opt")
    internal = b.has("internal")
    rng = ck.rng
    cmds = []
    N = ck.thorough(6000, 60000)
    for _ in range(N):
        z = rng.choice(NI)
        y = rng.random()
        th = [t for t in D.mc.thresholds(z) if 0 < t < 19.9] or [6.]
        if y < .35: e = min(20., max(1e-5, rng.choice(th) + rng.choice([1, 1, -1]) * 10 ** rng.uniform(-3, .3)))
        elif y < .45: e = rng.choice([20., 10., 14., 15., 5., 19.9])
        elif y < .55: e = rng.randrange(10, 200) / 10.
        else: e = rng.uniform(4.5, 20.)
        e = float("%.7g" % e)
        if internal and rng.random() < .8:
            cmds.append("ff %d %.10g 1 %d" % (z, e, rng.randrange(1, 1 << 31)))
        else:
            cmds.append("ev %d %.10g 0 -1 %d" % (z, e, rng.randrange(1, 1 << 31)))
    for z in NI:       # far below the first threshold, and spontaneous fission: never
        cmds += ["ev %d %.8g 0 -1 %d" % (z, e, rng.randrange(1, 1 << 31)) for e in (2.53e-8, .5, min(D.mc.thresholds(z)) - .01)]
    for z in SF:
        cmds += ["ev %d 0 0 -1 %d" % (z, rng.randrange(1, 1 << 31)) for _ in range(3)]
    rng.shuffle(cmds)
    d = rundir("promptonly", 1)
    if b.has("kernels"):       # the draw itself, many times per energy, before the barriers are applied
        kc = []
        for z in NI:
            g = [float(q[0]) for q in D.mc.tab[z][1]] if len(D.mc.tab[z]) > 1 else []
            es = [20.0, 19.9, rng.choice(g[1:] or [10.])] + [rng.uniform(5, 20) for _ in range(ck.thorough(5, 60))] + [rng.uniform(17.5, 20) for _ in range(ck.thorough(5, 60))]
            kc += ["k_chance %d %.8g %d %d" % (z, min(20., max(.01, e)), 50000, rng.randrange(1, 1 << 31)) for e in es]
        for r in runmany(b, [(c, d) for c in chunks(kc, 2 * NPROC)]):
            if not finished(ck, r):
                continue
            for c, x in zip(r.cmds, r.recs):
                ck.ok("draws of the fission chance", (x["za"], round(x["e"], 3)), x["n"])
                def worst(p):
                    q = 2.0, ()
                    for k in range(8):
                        pk = p[k] if k < len(p) else 0.
                        q = min(q, (stats.binom_p(int(x["c"][k]), x["n"], pk), (k, x["c"][k], x["n"], pk)))
                    return q
                q = worst(D.mc.table_probs(x["za"], x["e"]))
                if q[0] < stats.ALPHA and worst(D.mc.probs(x["za"], x["e"]))[0] < stats.ALPHA:
                    ck.viol("'%s': %d pre-fission neutrons drawn %d times of %d, the tables give %.6f" % ((c,) + q[1]), {"cmd": c})
    S = {}
    pre = {}
    def tally(t, k, o, m, v):
        s = t.setdefault(k, [0., 0., 0.]); s[0] += o; s[1] += m; s[2] += v
    for r in runmany(b, [(c, d) for c in chunks(cmds, 4 * NPROC)]):
        if not finished(ck, r):
            continue
        for c, x in zip(r.cmds, r.recs):
            w = c.split(); z, e = int(w[1]), float(w[2])
            bad = []
            if w[0] == "ff":
                n = x["Ac0"] - x["Ac"]
                L, H = x["L"], x["H"]
                if L[0] + H[0] != x["Ac"]: bad.append("fragments %g+%g of a nucleus of mass %d" % (L[0], H[0], x["Ac"]))
                v = x["pre"]
                en = [.5 * nuc.MN * sum(q * q for q in v[3 * i:3 * i + 3]) for i in range(n)]
                Zc, A0 = nuc.compound(z, e)
                try:
                    exc = L[4] + H[4] + L[2] + H[2] - (D.me(Zc, x["Ac"]) - D.me(int(L[1]), int(L[0])) - D.me(int(H[1]), int(H[0])))
                except KeyError:
                    exc = None
            else:
                n = x["npre"]
                en = x["pE"]
                exc = None
                if n != len(en) or x["L"][0] + x["H"][0] + n != nuc.compound(z, e)[1]:
                    bad.append("%d pre-fission neutrons reported, %d energies, fragment masses %g+%g" % (n, len(en), x["L"][0], x["H"][0]))
                if n: exc = ev.prefission(D, x)[2][-1] + .0256 * n
            if e == 0:
                if n: bad.append("%d neutrons before spontaneous fission" % n)
                pr = None
            else:
                pr = D.mc.probs(z, e)
                if not 0 <= n <= 3 or pr[n] <= 0:
                    bad.append("%d pre-fission neutrons, probabilities are %s" % (n, pr))
            if any(not (q > 0 and math.isfinite(q)) for q in en):
                bad.append("pre-fission neutron energies %s" % en)
            if n and exc is not None and exc < D.mc.tab[z][0][n] - .051 * n - 1e-3:
                bad.append("residual excitation %.4f below the barrier %.4f after %d neutrons" % (exc, D.mc.tab[z][0][n], n))
            ck.ok("events with %d pre-fission neutrons" % n, (z, round(e, 4), n))
            for q in bad:
                ck.viol("%s ('%s')" % (q, c), {"cmd": c})
            if pr and not bad:
                for k in range(4):
                    if 0 < pr[k] < 1:
                        for g in ("all", z, ("E", int(e // 2))):
                            tally(S, (g, "%d neutrons" % k), n == k, pr[k], pr[k] * (1 - pr[k]))
                if w[0] == "ff" and n:
                    f = M.preeq(z, e)
                    for g in ("all", z, ("E", int(e // 3))):
                        tally(pre, g, x["preeq"], f, f * (1 - f))
            ck.sample({"cmd": c, "n": n, "probabilities": pr, "energies": en})
    for what, t in (("fission chance", S), ("pre-equilibrium fraction", pre)):
        for k, (o, m, v) in t.items():
            if v > 3 and stats.zsum(o, m, v)[0] < stats.ALPHA:
                ck.viol("%s %s: observed %d, expected %.1f +- %.1f" % (what, k, o, m, math.sqrt(v)))
            elif v <= 3 and (o > m + 12):
                ck.viol("%s %s: observed %d, expected %.2f" % (what, k, o, m))
        ck.extra[what + ": observed, expected"] = {str(k): [int(o), round(m, 1)] for k, (o, m, v) in list(t.items())[:12]}
    # yields runs draw the chance too
    jobs = []
    for i in range(ck.thorough(24, 120)):
        z = rng.choice(NI); e = float("%.6g" % rng.uniform(9, 20))
        fn = "%s/m%d" % (scratch(), i)
        jobs.append((["yields %d %.8g 30 %s %d" % (z, e, fn, rng.randrange(1, 1 << 30))], d, fn, z, e))
    shared = mixed = 0
    pshare = 1.0
    T = {}
    for r, j in zip(runmany(b, [q[:2] for q in jobs]), jobs):
        if not finished(ck, r):
            continue
        rows = yrows(open(j[2]).read())
        A0 = nuc.compound(j[3], j[4])[1]
        ns = [int(A0 - a["A"] - h["A"]) for a, h in zip(rows[::2], rows[1::2])]
        pr = D.mc.probs(j[3], j[4])
        ck.ok("yields runs", (j[3], round(j[4], 3), tuple(sorted(set(ns)))))
        if any(not 0 <= n <= 3 or pr[n] <= 0 for n in ns):
            ck.viol("'%s': pre-fission neutrons %s, probabilities %s" % (r.cmds[0], sorted(set(ns)), pr)); continue
        for k in range(4):
            tally(T, k, ns[0] == k, pr[k], pr[k] * (1 - pr[k]))
        if len(set(ns)) == 1:
            if sum(q ** 30 for q in pr) < 1e-3:
                shared += 1
        else:
            mixed += 1
            for n_ in ns[1:]:
                for k in range(4):
                    tally(T, ("later", k), n_ == k, pr[k], pr[k] * (1 - pr[k]))
    for k, (o, m, v) in T.items():
        if v > 3 and stats.zsum(o, m, v)[0] < stats.ALPHA:
            ck.viol("yields runs, %s neutrons: observed %d, expected %.1f +- %.1f" % (k, o, m, math.sqrt(v)))
    if shared:
        ck.known("yields-shared-chance", "all events of a multi-event yields run share one fission chance (%d of %d runs)" % (shared, shared + mixed))


def c13_prefission(ck, b, d, D, M):
    """neutrons emitted before fission: isotropic in the frame of the emitting nucleus, pre-equilibrium ones
    forward-peaked as tabulated for the incident energy and the excitation left behind"""
    S = M.scatter
    cm = []
    for i in range(ck.thorough(500, 5000)):
        z = ck.rng.choice(NI)
        cm.append("ffs %d %.7g %d %d" % (z, ck.rng.uniform(11., 20.), 30, ck.rng.randrange(1, 1 << 30)))
    pq, pi_, pa = Pit("pre-equilibrium neutrons, polar angle", .012), Pit("evaporated pre-fission neutrons, polar angle"), Pit("pre-fission neutrons, azimuth")
    for r in runmany(b, [(c, d) for c in chunks(cm, 4 * NPROC)]):
        if not finished(ck, r):
            continue
        for x in r.recs:
          if x.get("k") != "ffs":
            continue
          w = x["v"]; evn = []
          k = 0
          while k < len(w):
            m = int(w[k]); evn.append(w[k + 1:k + 1 + 3 * m]); k += 1 + 3 * m
          for v, pe in zip(evn, x["preeq"]):
            E1 = x["einc"]      # excitation of the target after inelastic scattering to zero energy
            for i in range(0, len(v), 3):
                q = ev.norm(v[i:i + 3])
                if not q > 0 or not math.isfinite(q):
                    ck.viol("'%s': velocity of pre-fission neutron %s" % (r.cmds[0], v[i:i + 3])); continue
                c = max(-1., min(1., v[i + 2] / q))
                if q > 1e-5:
                    pa.add((math.atan2(v[i + 1], v[i]) / (2 * math.pi)) % 1.)
                if i == 0 and pe:
                    e = .5 * nuc.MN * q * q
                    ex = E1 - e
                    p0, p1 = (sum(sum(S[t][k][j] * ex ** j for j in range(6)) * x["einc"] ** k for k in range(4)) for t in (0, 1))
                    # p0*sinh(cos)+p1, normalised
                    u = (p0 * (math.cosh(c) - math.cosh(1.)) + p1 * (c + 1)) / (2 * p1) if p1 > 0 else None
                    ck.ok("pre-equilibrium neutrons", (x["za"], int(e), int(c * 10)))
                    if u is not None and abs(p0) * math.sinh(1.) <= p1:
                        pq.add(u, ("E", int(e // 4)))
                    else:
                        ck.ok("pre-equilibrium neutrons outside the range of the tabulated fit")
                else:
                    pi_.add((1 + c) / 2, ("number", i // 3))
                    ck.ok("evaporated pre-fission neutrons", (x["za"], i // 3, int(c * 10)))
    for q in (pq, pi_, pa):
        if q.g: q.judge(ck)


def C13(ck):
    ck.rule = "one evaluation per direction; distinct by (reaction, cosine bin)"
    ck.assume = ["the anisotropic law is tabulated at 50 cosines in the release: deviations of the distribution function below 0.012 are not judged", "photon directions are given relative to the fragment (the release leaves them unrotated)"]
    D, M = models()
    SL = .012
    pc, pi_, ph, pr = Pit("fission axis about the beam", SL), Pit("fission axis (isotropic)"), Pit("azimuth of the fission axis"), Pit("fission axis, excess over isotropy")
    aq = {}
    for x in pairs(ck, ck.thorough(1, 4), ck.thorough(15000, 60000), ck.thorough(4000, 20000), mixed=False):
        L, H = x["L"], x["H"]
        ml, mh = D.M(int(L[1]), int(L[0])), D.M(int(H[1]), int(H[0]))
        v = [x["Lpre"][k] / ml - x["Hpre"][k] / mh for k in range(3)]
        q = ev.norm(v)
        if not q > 0 or not math.isfinite(q):
            ck.viol("'%s': fragment momenta %s %s" % (x["cmd"], x["Lpre"], x["Hpre"])); continue
        c = max(-1., min(1., v[2] / q))
        a = M.anisotropy(x["zt"], x["e"])
        bb = a - 1
        u = ((c + bb * c ** 3 / 3) + (1 + bb / 3)) / (2 + 2 * bb / 3)
        if a == 1.0:
            pi_.add(u, (x["zt"],))
        else:
            pc.add(u, (x["zt"],))
            # <cos^2> carries the anisotropy: expected (1/3+b/5)/(1+b/3)
            m2 = (1 / 3. + bb / 5) / (1 + bb / 3)
            m4 = (1 / 5. + bb / 7) / (1 + bb / 3)
            for g in ("all", x["zt"], ("E", int(x["e"] // 3))):
                s = aq.setdefault(g, [0., 0., 0., 0]); s[0] += c * c; s[1] += m2; s[2] += m4 - m2 * m2; s[3] += 1
        ph.add((math.atan2(v[1], v[0]) / (2 * math.pi)) % 1., (x["zt"],))
        ck.ok("fission axes", (x["zt"], round(x["e"], 2), int(c * 10)))
        ck.sample({"za": x["zt"], "E": x["e"], "cos": c, "anisotropy": a})
    # the ends of the table, through the public interface and with statistics of their own
    b = build("opt")
    d = rundir("promptonly", 1)
    jobs, info = [], []
    for z in NI:
        for e in (20.0, ck.rng.choice([0.1, 2.53e-8])):
            fn = "%s/an%d-%g" % (scratch(), z, e)
            jobs.append((["yields %d %.10g %d %s %d" % (z, e, ck.thorough(6000, 30000), fn, ck.rng.randrange(1, 1 << 30))], d)); info.append((z, e, fn))
    for r, (z, e, fn) in zip(runmany(b, jobs), info):
        if not finished(ck, r):
            continue
        rows = yrows(open(fn).read())
        os.unlink(fn)
        bb = M.anisotropy(z, e) - 1
        m2 = (1 / 3. + bb / 5) / (1 + bb / 3); m4 = (1 / 5. + bb / 7) / (1 + bb / 3)
        for a, h in zip(rows[::2], rows[1::2]):
            ml, mh = D.M(int(a["Z"]), int(a["A"])), D.M(int(h["Z"]), int(h["A"]))
            v = [a[k] / ml - h[k] / mh for k in ("px", "py", "pz")]
            q = ev.norm(v)
            if not q > 0 or not math.isfinite(q):
                ck.viol("'%s': fragment momenta" % r.cmds[0]); continue
            c = v[2] / q
            s = aq.setdefault((z, "at %g MeV" % e), [0., 0., 0., 0]); s[0] += c * c; s[1] += m2; s[2] += m4 - m2 * m2; s[3] += 1
            ck.ok("fission axes at the ends of the energy table", (z, e, int(c * 10)))
    # the coefficient in use at every tabulated energy (and between them)
    if b.has("internal"):
        lo, st, n = M.agrid
        cm = []
        for z in NI:
            for i in range(1, n):
                cm.append((z, lo + st * i))
            for _ in range(ck.thorough(20, 200)):
                cm.append((z, float("%.7g" % ck.rng.uniform(1e-6, 20.))))
        ck.rng.shuffle(cm)
        for cs in [cm[i::24] for i in range(24)]:
            jobs.append((["ff %d %.10g 1 %d" % (z, e, ck.rng.randrange(1, 1 << 30)) for z, e in cs], d))
        for r in runmany(b, jobs[len(info):]):
            if not finished(ck, r):
                continue
            for x in r.recs:
                if x.get("k") != "ff" or "aniso" not in x:
                    continue
                za, e = x["za"], x["einc"]
                f = (e - lo) / st + .5
                if abs(f - round(f)) < 1e-6:
                    continue              # half way between two columns
                a = M.anisotropy(za, e)
                ck.ok("coefficients", (za, int(f)))
                if abs(x["aniso"] - a) > 1e-9:
                    ck.viol("%d at %.8g MeV: anisotropy %.6g used, tabulated %.6g" % (za, e, x["aniso"], a))
    for g, (o, m, v, n) in aq.items():
        z = max(0., abs(o - m) - .0015 * n) / math.sqrt(v)
        if stats.ztwo(z) < stats.ALPHA:
            ck.viol("fission axes of %s: mean cos^2 %.4f, tabulated anisotropy gives %.4f (n=%d)" % (g, o / n, m / n, n))
    for q in (pc, pi_, ph):
        q.judge(ck)
    if b.has("internal"):
        c13_prefission(ck, b, d, D, M)
    # particles in the frame of the fragment
    b = build("opt")
    P = {}
    def add(nm, u, side, cosf=None):
        k = nm
        if k not in P: P[k] = Pit(nm)
        P[k].add(u, (side,))
    prs = {}
    for p, tab, c, e in run_events(ck, b, ck.thorough(1500, 25000), profiles=["std", "promptonly", "highic"], windows=[-1.0, 1e-8], times=(0.0,)):
        for f in ev.parts(e):
            s = f["side"]
            fd = [q / ev.norm(f["pre"]) for q in f["pre"]]
            for i in range(f["nn"]):
                d = [f["cu"][i], f["cv"][i], f["cw"][i]]
                add("neutron polar angle in the fragment frame", (1 + d[2]) / 2, s)
                add("neutron azimuth in the fragment frame", (math.atan2(d[1], d[0]) / 2 / math.pi) % 1, s)
                cf = sum(x * y for x, y in zip(d, fd))
                add("neutron angle to the fragment in its frame", min(1., max(0., (1 + cf) / 2)), s)
                if i:
                    cc = sum(x * y for x, y in zip(d, [f["cu"][i - 1], f["cv"][i - 1], f["cw"][i - 1]]))
                    add("angle between successive neutrons in the fragment frame", min(1., max(0., (1 + cc) / 2)), s)
                ck.ok("neutrons", ("n", s, int(d[2] * 10)))
            for i in range(f["ng"]):
                d = [f["gu"][i], f["gv"][i], f["gw"][i]]
                add("photon polar angle in the fragment frame", (1 + d[0]) / 2, s)
                add("photon azimuth in the fragment frame", (math.atan2(d[2], d[1]) / 2 / math.pi) % 1, s)
                if i:
                    cc = sum(x * y for x, y in zip(d, [f["gu"][i - 1], f["gv"][i - 1], f["gw"][i - 1]]))
                    add("angle between successive photons in the fragment frame", min(1., max(0., (1 + cc) / 2)), s)
                ck.ok("photons", ("g", s, int(d[0] * 10)))
    for q in P.values():
        q.judge(ck)
    # compare the two fragments' treatment: none of the above groups may differ, which the per-side groups decide
