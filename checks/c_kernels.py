"""C24: numerical and nuclear-model kernels against independent references."""
import gzip, json, os
from vlib import *
from work import *
import kern
import numpy as np
from scipy import special as sp
from c_data import kck

GOLD = os.path.join(HERE, "golden", "preeq.json.gz")


def etc_args(rng, n):
    u = rng.uniform
    def assoc():
        l = rng.randrange(0, 20); return l, rng.randrange(0, l + 1), u(-1, 1)
    g = {"loggamma": lambda: (0, 0, rng.choice([u(.01, 9), u(.01, 60), rng.randrange(1, 40) / 2.])),
         "gam": lambda: (0, 0, rng.choice([u(-5.9, 20), u(.01, 3), rng.randrange(1, 40) / 2.])),
         "legendre": lambda: (rng.randrange(0, 25), 0, u(-1, 1)), "legendre1": lambda: (rng.randrange(0, 25), 0, u(-1, 1)),
         "assoc": assoc, "bessi2": lambda: (rng.randrange(0, 25), 0, 10 ** u(-2, 2.3)), "bessk2": lambda: (rng.randrange(0, 25), 0, 10 ** u(-1, 2)),
         "laguerre": lambda: (rng.randrange(0, 15), u(0, 5), u(0, 20)), "gauss": lambda: (u(.05, 3), u(-5, 5), u(-5, 5)),
         "jvol": lambda: (rng.randrange(20, 250), u(1, 60), u(1.1, 1.4)), "jsrf": lambda: (rng.randrange(20, 250), u(1, 60), u(1.1, 1.4)),
         "abs": lambda: (0, u(-5, 5), u(-5, 5)), "sqrt": lambda: (0, u(-5, 5), u(-5, 5)), "pow": lambda: (u(.1, 3), u(-5, 5), u(-5, 5)), "ratio": lambda: (u(-5, 5), u(-5, 5), u(-5, 5))}
    return {f: [h() for _ in range(n)] for f, h in g.items()}


def etc_ref(f, n, a, x):
    m = int(n)
    if f == "loggamma": return sp.gammaln(x), 0
    if f == "gam": return sp.gamma(x), 0
    if f == "legendre": return sp.eval_legendre(m, x), 0
    if f == "legendre1": return (-sp.lpmv(1, m, x) if m else 0.), 0
    if f == "assoc": return sp.lpmv(int(a), m, x), 0
    if f == "bessi2": return sp.iv(m + .5, x), 0
    if f == "bessk2": return sp.kv(m + .5, x), 0
    if f == "laguerre": return sp.eval_genlaguerre(m, a, x), 0
    if f == "gauss": return math.exp(-(a - x) ** 2 / 2 / n ** 2) / n / math.sqrt(2 * math.pi), 0
    if f == "jvol":
        R = x * n ** (1 / 3.); return a * 4 * math.pi / 3 * R ** 3 / n * (1 + (math.pi * .66 / R) ** 2), a
    if f == "jsrf":
        R = x * n ** (1 / 3.); return a * 16 * math.pi / n * R * R * .58 * (1 + (math.pi * .58 / R) ** 2 / 3), a
    if f == "abs": return a * a + x * x, 0
    z = complex(a, x) ** .5 if f == "sqrt" else complex(a, x) ** n if f == "pow" else complex(n, 1.5) / complex(a, x)
    return z.real, z.imag


def on_etc(ck, x):
    f = x["f"]
    for n, a, q, y, z in np.array(x["v"]).reshape(-1, 5):
        Y, Z = etc_ref(f, n, a, q)
        ck.ok("special function values", (f, n, round(q, 1)))
        if not (abs(y - Y) <= 1e-8 * max(abs(Y), 1e-3 if f != "bessi2" else abs(Y)) and abs(z - Z) <= 1e-8 * max(abs(Z), 1e-3)):
            ck.viol("%s(%g, %g, %.12g) = %.12g, %.12g; mathematics gives %.12g, %.12g" % (f, n, a, q, y, z, Y, Z), {"cmd": "k_etc %s %.17g %.17g %.17g" % (f, n, a, q)}); return


def on_ext(ck, x):
    w = np.array(x["w"]).reshape(-1, 4)
    rho = x["rho"]
    for l, (g, f, dg, df) in enumerate(w):
        F, G = rho * sp.spherical_jn(l, rho), -rho * sp.spherical_yn(l, rho)
        dF, dG = sp.spherical_jn(l, rho) + rho * sp.spherical_jn(l, rho, True), -sp.spherical_yn(l, rho) - rho * sp.spherical_yn(l, rho, True)
        ck.ok("free radial functions", (l, round(math.log10(rho), 1)))
        s = math.hypot(F, G)
        bad = [(n, p, q) for n, p, q, t in (("F", f, F, 1e-6 * max(abs(F), min(1., s))), ("G", g, G, 1e-6 * s), ("F'", df, dF, 1e-6 * max(abs(dF), min(1., abs(dG)))), ("G'", dg, dG, 1e-6 * max(abs(dG), s / rho, 1e-3))) if not abs(p - q) <= t]
        if bad:
            ck.viol("free radial function %s_%d(%.6g) is %.10g, mathematics gives %.10g" % (bad[0][0], l, rho, bad[0][1], bad[0][2]), {"cmd": "k_ext %.17g" % rho}); return


def on_om(ck, x):
    c = {"cmd": "k_om %d %d %.17g" % (x["Z"], x["A"], x["E"])}
    t = np.array(x["t"]).reshape(-1, 3)
    ck.ok("transmission coefficient sets", (x["Z"], x["A"], round(math.log10(x["E"]), 1)))
    if x["lmax"] < 1 or len(t) == 0:
        ck.viol("n + %d%03d at %.6g MeV: no partial wave" % (x["Z"], x["A"], x["E"]), c); return
    if not (np.all(t >= 0) and np.all(t <= 1)):
        ck.viol("n + %d%03d at %.6g MeV: transmission coefficient outside [0,1]: %s" % (x["Z"], x["A"], x["E"], t.tolist()), c); return
    T = kern.transmission(x["Z"], x["A"], x["E"], x["mu"], min(x["lmax"] + 2, 45))
    n = len(t)
    d = np.abs(t[:, :2] - T[:n])
    tol = 3e-3 + 0 * T[:n]
    if (d > tol).any():
        i = np.unravel_index((d - tol).argmax(), d.shape)
        ck.viol("n + %d%03d at %.6g MeV: transmission coefficient l=%d j=l%s1/2 is %.6g, the optical-model equation gives %.6g" % (x["Z"], x["A"], x["E"], i[0], "-" if i[1] else "+", t[i[0], i[1]], T[i]), c); return
    for l in range(n):
        for q in (0, 1):
            if T[l, q] > 1e-4 and abs(t[l, q] / T[l, q] - 1) > .05:
                ck.viol("n + %d%03d at %.6g MeV: small transmission coefficient l=%d is %.6g, the optical-model equation gives %.6g" % (x["Z"], x["A"], x["E"], l, t[l, q], T[l, q]), c); return
    w = np.array([[l + 1, l] for l in range(len(T))])
    tot, cut = (w * T).sum(), (w[n:] * T[n:]).sum()
    if cut > 1e-4 * tot:
        ck.viol("n + %d%03d at %.6g MeV: partial waves beyond l=%d cut although they carry %.2g of the absorption" % (x["Z"], x["A"], x["E"], x["lmax"], cut / tot), c); return
    r = (w[:n] * t[:, :2]).sum()
    if abs(x["reac"] - r) > 1e-9 * r:
        ck.viol("n + %d%03d at %.6g MeV: absorption %.10g is not the sum over partial waves %.10g" % (x["Z"], x["A"], x["E"], x["reac"], r), c)


def tg(A, lve, n, a, dw, d, s0):
    """Gilbert-Cameron matching; None if there is no connection"""
    if n <= 2: return None
    L = kern.LD(A, (1., dw, 1., 0., a, d, s0))
    lvu = lve - d
    lo, hi = max(d, 9 / (4 * L.shell(lvu))), 100.
    for i in range(101):
        ex = (lo + hi) / 2; u = ex - d
        ax = L.shell(max(lvu, u))
        if u <= 0: return None
        t = math.sqrt(ax / u) - 1.5 / u
        if t < 0: return None
        t = 1 / t if t else math.inf
        sg = max(math.sqrt(.006945 * math.sqrt(max(u, .5) / ax) * A ** (5 / 3.)), s0)
        try: e01 = t * math.log((math.exp(lve / t) - 1) / n)
        except (OverflowError, ValueError): return None
        e02 = ex - t * math.log(t * L.fg(u, ax, sg))
        if abs(e01 - e02) <= 1e-6: return t, e01, ex
        if e01 < e02: lo = ex
        else: hi = ex
    return None


def on_ld(ck, x, K):
    n = x["n"]; Z, A = n["Z"], n["A"]
    c = {"cmd": x["cmd"]}
    em, dw, T, E0, a, d, s0 = n["ldp"]
    nm = "nucleus Z=%d A=%d" % (Z, A)
    ck.ok("level-density parameter sets", (Z, A))
    lev = np.array(n["lev"]).reshape(-1, 3)
    # systematics
    sys = [.126181 * A + 7.52191e-5 * A * A, math.sqrt(.0465 * A + 4.296), 47.0582 * A ** -.893714 * math.sqrt(1 - .1 * dw), None, .5, .5]
    sys[3] = d - .16 * dw + sys[2] * (-.01380 * A - 1.379)
    for name, g, w in zip(("asymptotic level-density parameter", "spin cut-off", "temperature", "energy shift", "even-parity fraction", "odd-parity fraction"), x["sys"], sys):
        if not abs(g - w) <= 1e-9 * max(1, abs(w)):
            ck.viol("%s: systematic %s %.10g, formula %.10g" % (nm, name, g, w), c); return
    z = 1000 * Z + A
    if z in K and (abs(d - K[z][0]) > 1e-9 or abs(dw - K[z][1]) > 1e-9):
        ck.viol("%s: pairing and shell energies %g, %g; file %g, %g" % (nm, d, dw, K[z][0], K[z][1]), c); return
    w0 = math.sqrt((lev[:, 1] * (lev[:, 1] + 1)).sum() / (2. * len(lev))) if len(lev) > 1 else 0.
    if w0 == 0: w0 = math.sqrt(sys[1])
    if abs(s0 - w0) > 1e-9:
        ck.viol("%s: low-energy spin cut-off %.10g, levels give %.10g" % (nm, s0, w0), c); return
    L = kern.LD(A, n["ldp"])
    con = tg(A, lev[-1, 0], len(lev), sys[0], dw, d, w0)
    if len(lev) > 2 and con:
        kind = "matched to levels"
        ok = abs(a - sys[0]) < 1e-9 and all(abs(p - q) < 1e-5 for p, q in zip((T, E0, em), con))
    elif len(lev) <= 2 and z in K and K[z][2] > 0:
        kind = "tabulated"
        ok = abs(a - sys[0]) < 1e-9 and abs(em - K[z][2]) < 1e-9 and abs(T - K[z][4]) < 1e-9 and abs(E0 - K[z][5]) < 1e-9
    else:
        kind = "systematics"
        ok = abs(T - sys[2]) < 1e-9 and abs(E0 - sys[3]) < 1e-9
        if ok and em != 0:
            ok = abs(L.ct(em) - L.fg(em - d, L.par(em), L.sig(em))) < 1e-5 and abs(1 / T - math.sqrt(L.par(em) / (em - d)) + 1.5 / (em - d)) < 1e-6
    ck.ok("level-density parameter kinds", kind)
    if not ok:
        ck.viol("%s (%s): temperature %.8g, shift %.8g, match %.8g, a %.8g do not solve the matching conditions (expected %s)" % (nm, kind, T, E0, em, a, con or (sys[2], sys[3]) if kind != "tabulated" else K[z]), c); return
    if em != 0 and kind == "matched to levels":
        p, q = L.ct(em), L.fg(em - d, L.par(em), L.sig(em))
        if em >= lev[-1, 0] and abs(p - q) > 1e-4 * p:
            ck.viol("%s: level density jumps from %g to %g at the matching energy" % (nm, p, q), c); return
    for e, r, ap, s in np.array(x["rho"]).reshape(-1, 4):
        R, W = L.rho(e), (L.spin(2., e))
        ck.ok("level densities", (Z, A, round(e)))
        if not (r >= 0 and abs(r - R) <= 1e-9 * R and abs(ap - L.par(e)) <= 1e-9 * ap and abs(s - W) <= 1e-9 * W):
            ck.viol("%s: level density at %.6g MeV %.10g (a=%.8g, f(J=2)=%.6g), formula %.10g (%.8g, %.6g)" % (nm, e, r, ap, s, R, L.par(e), W), c); return
    h = .5 if (2 * lev[0, 1]) % 2 == 1 else 0.
    D = np.array(n["dens"]).reshape(-1, 50, 2)
    for k in sorted({0, 1, len(D) // 3, len(D) // 2, len(D) - 2, len(D) - 1} & set(range(len(D)))):
        e = n["ex"][k]
        w = .5 * L.rho(e) * np.array([L.spin(j + h, e) for j in range(50)])
        ck.ok("level-density tables")
        for q in (0, 1):
            if (np.abs(D[k, :, q] - w) > 1e-9 * w).any():
                j = int((np.abs(D[k, :, q] - w) - 1e-9 * w).argmax())
                ck.viol("%s: stored level density at %.6g MeV, J=%g, parity %s is %.10g, formula %.10g" % (nm, e, j + h, "-" if q else "+", D[k, j, q], w[j]), c); return
    bins(ck, n, c)


def bins(ck, n, c):
    ex = n["ex"]
    ck.ok("energy grids")
    if ex[0] != n["max"] or ex[-1] != 0 or any(abs(ex[k] - (n["max"] - k * n["de"])) > 1e-9 for k in range(len(ex) - 1)):
        ck.viol("Z=%d A=%d: energy grid %s... does not run in steps of %g from %g to 0" % (n["Z"], n["A"], ex[:4], n["de"], n["max"]), c)


def on_gdr(ck, x):
    c = {"cmd": x["cmd"]}
    G = kern.gdr(x["Z"], x["A"], x["beta"])
    nm = "Z=%d A=%d beta=%g" % (x["Z"], x["A"], x["beta"])
    ck.ok("giant resonance sets", (x["Z"], x["A"], x["beta"] != 0))
    if len(G) != len(x["gdr"]) or any(p[0] != q[0] or any(abs(i - j) > 1e-9 * abs(j) for i, j in zip(p[1:], q[1:])) for p, q in zip(sorted(x["gdr"]), sorted(map(list, G)))):
        ck.viol("%s: giant resonances %s, systematics %s" % (nm, x["gdr"], G), c); return
    for v in np.array(x["t"]).reshape(-1, 6):
        w = kern.tgamma(G, v[0], x["a"], v[1])
        ck.ok("photon transmission coefficients", (x["Z"], x["A"], round(v[0])))
        for name, p, q in zip(("E1 (generalised)", "E1 (standard)", "M1", "E2"), v[2:], w):
            if not (p >= 0 and abs(p - q) <= 1e-9 * q):
                ck.viol("%s: %s transmission at %.6g MeV (final state %.6g) is %.10g, formula %.10g" % (nm, name, v[0], v[1], p, q), c); return


def on_decay(ck, x, D):
    c = {"cmd": x["cmd"]}
    n0 = x["n0"]; Z, A = n0["Z"], n0["A"]
    nm = "Z=%d A=%d U=%.6g J=%g P=%+d" % (Z, A, x["U"], x["J"], x["P"])
    sn = n0 and D.mass[1000 * Z + A - 1] + 8.071431 - D.mass[1000 * Z + A]
    bins(ck, n0, c)
    if x["open"] != (1 if sn < x["U"] else 0) and abs(sn - x["U"]) > 1e-6:
        ck.viol("%s: neutron emission %s with separation energy %.6g" % (nm, "allowed" if x["open"] else "forbidden", sn), c); return
    if "ini" not in x:
        ck.ok("states below the continuum", (Z, A)); return
    ini = np.array(x["ini"])
    if abs(ini.sum() - 1) > 1e-12 or (ini > 0).sum() != 1:
        ck.viol("%s: initial state is not one state of probability 1: %s" % (nm, ini[ini != 0]), c); return
    j = int(np.argmax(ini)) // 2
    if j != int(x["J"]) or (np.argmax(ini) % 2 == 0) != (x["P"] > 0):
        ck.viol("%s: starts with J index %d, parity %s" % (nm, j, "+-"[int(np.argmax(ini)) % 2]), c); return
    def dense(k, n):
        a = np.zeros((n["ntotal"], 50, 2))
        for e, q, u, v in np.array(x[k]).reshape(-1, 4): a[int(e), int(q)] = (u, v)
        return a, np.array(x[k + "l"])
    P0, L0 = dense("p0", n0); P0[0] = 0
    got = [P0, L0]
    if x["open"]: got += list(dense("p1", x["n1"]))
    tot = sum(g.sum() for g in got)
    ck.ok("decaying states", (Z, A, x["open"], round(x["U"])))
    if any((g < 0).any() for g in got) or abs(tot - 1) > 1e-9:
        ck.viol("%s: decay probabilities sum to %.12g" % (nm, tot), c); return
    h = kern.hauser(x, sn)
    if h is None:
        ck.ok("states without an allowed transition", (Z, A)); return
    for name, g, w in zip(("photon to the continuum", "photon to a level", "neutron to the continuum", "neutron to a level"), got, h):
        ck.ok("decay probabilities", name, n=int((w > 0).sum()))
        e = np.abs(g - w)
        if (e > 1e-9 + 1e-5 * w).any():
            i = np.unravel_index((e - 1e-5 * w).argmax(), e.shape)
            ck.viol("%s: probability of %s %s is %.8g, Hauser-Feshbach gives %.8g" % (nm, name, tuple(int(q) for q in i), g[i], w[i]), c); return
    sg, s1 = sum(x["sg"]), sum(x["sn"])
    pg = P0.sum() + L0.sum()
    if abs(sg - pg) > 1e-9 or abs(s1 - (1 - pg)) > 1e-9:
        ck.viol("%s: photon and neutron spectra sum to %.10g and %.10g, probabilities are %.10g and %.10g" % (nm, sg, s1, pg, 1 - pg), c)


def on_bin(ck, x):
    for e, de, k in np.array(x["v"]).reshape(-1, 3):
        ck.ok("energy-bin lookups")
        q = e / de + .5
        w = int(math.floor(q))
        near = abs(q - round(q)) < 3e-4 + 3e-4 / de
        if k != w and not (near and k in (w - 1, w + 1)):
            ck.viol("energy %.8g in bins of %g is put in bin %d, not %d" % (e, de, k, w), {"cmd": "k_bin %.17g %.17g" % (e, de)}); return


def preq_cmds():
    return ["k_preq %d %d %g" % (z // 1000, z % 1000, e) for z in (92233, 92234, 92235, 92238, 93237, 94239, 94241) for e in (1., 5., 8.5, 12., 16., 20.)]


def on_preq(ck, x, D, gold):
    c = {"cmd": x["cmd"]}
    nm = "n + %d%03d at %g MeV" % (x["Z"], x["A"], x["E"])
    s, ex = np.array(x["s"]), np.array(x["ex"])
    ck.ok("pre-equilibrium spectra", x["cmd"])
    m2 = x["A"] + D.mass[1000 * x["Z"] + x["A"]] / 931.4943335
    e1 = x["E"] * m2 / (m2 + 1.00866491578)
    if abs(x["max1"] - e1) > 1e-5:
        ck.viol("%s: energy available to the neutron %.8g, kinematics gives %.8g" % (nm, x["max1"], e1), c); return
    if x["E"] <= 2 and (s == 0).all():
        return                       # no particle-hole state can emit
    if (s < 0).any() or not np.isfinite(s).all() or abs(s.sum() - 1) > 1e-9:
        ck.viol("%s: pre-equilibrium spectrum is not a normalised distribution (sum %.10g)" % (nm, s.sum()), c); return
    g = gold.get(x["cmd"])
    if g is not None:
        g = np.array(g)
        if len(g) != len(s) or (np.abs(s - g) > 1e-9 + 1e-5 * g).any():
            i = int(np.abs(s - g).argmax()) if len(g) == len(s) else 0
            ck.viol("%s: pre-equilibrium spectrum differs from the reference (bin %d: %.8g, reference %.8g)" % (nm, i, s[i], g[i] if i < len(g) else math.nan), c)


def workload(ck, D, K):
    rng = ck.rng
    zs = [z for z in sorted(K) if 24 <= z // 1000 <= 72 and 60 <= z % 1000 <= 185 and all(D.mass.get(z - k, 0) != 0 for k in range(13)) and K[z][1] != 0]
    frag = [z for z in zs if abs(z // 1000 - .395 * (z % 1000)) < 3]
    pick = lambda: divmod(rng.choice(frag), 1000)
    o = []
    for f, v in etc_args(rng, ck.thorough(400, 4000)).items():
        for c in chunks(v, max(1, len(v) // 200)):
            o.append("k_etc %s %s" % (f, " ".join("%.17g %.17g %.17g" % t for t in c)))
    o += ["k_ext %.10g" % 10 ** rng.uniform(-2.5, 1.3) for _ in range(ck.thorough(400, 5000))]
    for i in range(ck.thorough(900, 12000)):
        Z, A = pick() if i % 8 else (rng.choice([92, 93, 94]), rng.randrange(230, 242))
        o.append("k_om %d %d %.8g" % (Z, A, rng.choice([10 ** rng.uniform(-3.5, 1.4), rng.uniform(.01, 6), rng.uniform(.01, 25)])))
    for z in (zs if ck.thorough(0, 1) else rng.sample(zs, 700)):
        e = [rng.uniform(0, 3), rng.uniform(0, 10), rng.uniform(0, 10), rng.uniform(5, 40), rng.uniform(20, 60), 0.0]
        o.append("k_ld %d %d %.6g %s" % (z // 1000, z % 1000, rng.uniform(3, 40), " ".join("%.8g" % q for q in e)))
    for _ in range(ck.thorough(600, 6000)):
        Z, A = pick()
        o.append("k_gdr %d %d %.6g %.4g %s" % (Z, A, rng.uniform(8, 25), rng.choice([0, 0, 0, rng.uniform(-.3, .5)]), " ".join("%.6g %.6g" % (10 ** rng.uniform(-2, 1.45), rng.choice([-1, 0, rng.uniform(0, 30)])) for _ in range(8))))
    for _ in range(ck.thorough(420, 6000)):
        Z, A = pick()
        U = rng.choice([rng.uniform(2, 9), rng.uniform(5, 14), rng.uniform(8, 30)])
        if rng.random() < .25:
            sn = D.mass[1000 * Z + A - 1] + 8.071431 - D.mass[1000 * Z + A]
            U = max(2., sn + rng.choice([1, 1, -1]) * 10 ** rng.uniform(-3, 0))
        o.append("k_decay %d %d %.8g %d %d" % (Z, A, U, rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 11, 15, 22]), rng.choice([-1, 1])))
    o += ["k_bin " + " ".join("%.8g %g" % (rng.choice([rng.uniform(0, 30), rng.uniform(0, .2), rng.randrange(0, 800) * .025]), rng.choice([.05, .05, .1])) for _ in range(200)) for _ in range(ck.thorough(10, 100))]
    return o


def C24(ck):
    ck.rule = "one evaluation per kernel value compared; distinct by (kernel, nucleus, coarse argument)"
    ck.assume = ["transmission coefficients may differ by 3e-3 from a ten times finer solution of the same radial equation", "pre-equilibrium spectra are compared with a recording of the unchanged tree"]
    D = data(); K = kck(D)
    b = build("opt")
    if not b.has("kernels"):
        ck.assume.append("the kernels could not be called directly on this tree: only their visible effect on events was watched")
        for p, tab, c, e in run_events(ck, b, 300):
            ck.ok("events", key(e))
        return
    gold = json.load(gzip.open(GOLD, "rt")) if os.path.exists(GOLD) else {}
    cmds = workload(ck, D, K)
    ck.rng.shuffle(cmds)
    cmds += preq_cmds()
    profs = ["std", "std", "sparse", "dense", "ladder"]
    jobs = [(c, rundir(profs[i % len(profs)], 1 + ck.seed % 5)) for i, c in enumerate(chunks(cmds, ck.thorough(16, 128)))]
    res = runmany(b, jobs)
    for r in res:
        if not finished(ck, r): return
    for r in res:
        for c, x in zip(r.cmds, r.recs):
            x["cmd"] = c
            k = x["k"]
            {"k_etc": lambda: on_etc(ck, x), "k_ext": lambda: on_ext(ck, x), "k_om": lambda: on_om(ck, x), "k_ld": lambda: on_ld(ck, x, K), "k_gdr": lambda: on_gdr(ck, x),
             "k_decay": lambda: on_decay(ck, x, D), "k_bin": lambda: on_bin(ck, x), "k_preq": lambda: on_preq(ck, x, D, gold)}[k]()
    ck.extra = {"kernel calls": {k: sum(c.startswith(k) for c in cmds) for k in ("k_etc", "k_ext", "k_om", "k_ld", "k_gdr", "k_decay", "k_bin", "k_preq")}}


def record():
    b = build("opt")
    g = {}
    for r in runmany(b, [(preq_cmds(), rundir("std", 1))]):
        for c, x in zip(r.cmds, r.recs): g[c] = x["s"]
    with gzip.GzipFile(GOLD, "wb", mtime=0) as f: f.write(json.dumps(g).encode())
