"""C01-C06: per-event oracles over everything an event reports."""
import os
from vlib import *
from work import *
import evoracle as ev


def each(ck, n, f, **kw):
    b = build("opt")
    ck.extra["monitor_hook"] = b.has("monitor")
    for p, tab, c, e in run_events(ck, b, n, **kw):
        e["_cmd"] = " ".join(c); e["_prof"] = p
        f(p, tab, c, e)


def report(ck, bad, e, cat):
    for x in bad[:3]:
        ck.viol("%s (profile %s, '%s')" % (x, e["_prof"], e["_cmd"]), {"cmd": e["_cmd"], "profile": e["_prof"]})


def C01(ck):
    ck.rule = "one evaluation per event or yields line; distinct by (reaction, energy, fragment pair, neutron and photon multiplicities)"
    ck.assume = ["discrete-level files are synthetic (data/discreteLevels.dat is not shipped)"]
    def f(p, tab, c, e):
        report(ck, ev.o_conserve(e), e, "event")
        ck.ok("events with %d pre-fission neutrons" % e["npre"], key(e))
        ck.sample({k: e[k] for k in ("za", "einc", "L", "H", "npre")})
    each(ck, ck.thorough(1600, 30000), f)
    # yields runs: all lines
    b = build("opt")
    jobs = []
    reacts = [(z, 0.0) for z in SF] + [(z, x) for z in NI for x in (2.53e-8, ck.rng.uniform(0.1, 5), ck.rng.uniform(6, 12), ck.rng.uniform(12, 20))]
    reacts += [(z, ck.rng.uniform(13, 20)) for z in NI for _ in range(3)]      # near-symmetric splits after pre-fission emission
    num = lambda x: ck.thorough(400, 4000) if x < 13 else ck.thorough(2500, 10000)
    reacts.sort(key=lambda t: -num(t[1]))
    for i, (z, x) in enumerate(reacts):
        d = rundir("std", 1)
        fn = "%s/y%d" % (scratch(), i)
        jobs.append((["yields %d %.8g %d %s %d" % (z, x, num(x), fn, ck.rng.randrange(1, 1 << 30))], d, fn, z, x))
    for r, j in zip(runmany(b, [j[:2] for j in jobs]), jobs):
        if not finished(ck, r):
            continue
        Z, A = nuc.compound(j[3], j[4])
        L = [l.split() for l in open(j[2])]
        if len(L) != 2 * num(j[4]):
            ck.viol("yields run wrote %d lines" % len(L)); continue
        tot = set()
        for a, h in zip(L[::2], L[1::2]):
            zs, as_ = int(a[0]) + int(h[0]), int(a[1]) + int(h[1])
            n = A - as_
            tot.add(n)
            if zs != Z or not 0 <= n <= 3 or int(a[1]) > int(h[1]) or (n and j[4] == 0):
                ck.viol("yields %d %g: fragments Z %s+%s A %s+%s from Z=%d A=%d" % (j[3], j[4], a[0], h[0], a[1], h[1], Z, A))
            ck.ok("yields lines", (j[3], round(j[4], 4), a[1], a[0]))
        # the momenta of a pair balance the (unreported) pre-fission neutrons: none emitted, then exactly the beam
        ck.sample({"yields": j[3], "E": j[4], "pre-fission neutrons": sorted(tot)})


def C02(ck):
    ck.rule = "one evaluation per event; distinct by (reaction, energy, fragment pair, multiplicities)"
    ck.assume = ["pre-fission neutron energies are sampled on the 50-keV grid, so events with n pre-fission neutrons are balanced to n half bins", "masses.dat is the mass table"]
    D = data()
    def f(p, tab, c, e):
        report(ck, ev.o_scission(D, e), e, "balance")
        ck.ok("events with %d pre-fission neutrons" % e["npre"], key(e))
        ck.sample({k: e[k] for k in ("za", "einc", "L", "H", "npre", "pE")})
    each(ck, ck.thorough(1500, 30000), f, profiles=["promptonly", "sparse", "std"], hi=0.6)
    # larger samples of primary fragments (no decay): balance with no pre-fission neutron is exact
    ffpairs(ck, D)


def ffpairs(ck, D):
    b = build("opt")
    if not b.has("internal"):
        return
    jobs = []
    d = rundir("promptonly", 1)
    for z in SF:
        jobs.append((["ff %d 0 %d %d" % (z, ck.thorough(1500, 20000), ck.rng.randrange(1 << 30))], d))
    for z in NI:
        for x in (2.53e-8, ck.rng.uniform(0.1, 4.5), ck.rng.uniform(5, 20)):
            jobs.append((["ff %d %.8g %d %d" % (z, x, ck.thorough(700, 10000), ck.rng.randrange(1 << 30))], d))
    for r in runmany(b, jobs):
        if not finished(ck, r):
            continue
        npre = r.recs[-2]["Ac0"] - r.recs[-2]["Ac"]
        for e in r.recs:
            if e.get("k") != "ff":
                continue
            L, H = e["L"], e["H"]
            Z, A0 = nuc.compound(e["za"], e["einc"])
            ck.ok("primary pairs", (e["za"], round(e["einc"], 4), L[0], L[1]))
            try:
                Q = D.me(Z, e["Ac"]) - D.me(int(L[1]), int(L[0])) - D.me(int(H[1]), int(H[0]))
                ml, mh = D.M(int(L[1]), int(L[0])), D.M(int(H[1]), int(H[0]))
            except KeyError:
                ck.viol("pair outside the mass table: %s" % e); continue
            if npre == 0:
                exc = e["einc"] + (D.Sn(Z, A0) if e["einc"] > 0 else 0)
                bal = L[2] + H[2] + L[4] + H[4] - Q - exc
                if not abs(bal) < 1e-4:
                    ck.viol("ff %d %g seed %s #%d: TKE+TXE off by %.5g" % (e["za"], e["einc"], e["seed"], e["i"], bal))
            if not (L[4] > 0 and H[4] > 0 and L[2] > 0 and H[2] > 0):
                ck.viol("ff %d %g: U %g %g KE %g %g" % (e["za"], e["einc"], L[4], H[4], L[2], H[2]))
            tke = L[2] + H[2]
            if abs(L[2] - tke * mh / (ml + mh)) > 1e-5 * tke:
                ck.viol("ff %d %g: two-body share %g of %g" % (e["za"], e["einc"], L[2], tke))


def C03(ck):
    ck.rule = "one evaluation per fragment decay; distinct by (fragment, multiplicities, rounded excitation)"
    ck.assume = ["neutron separation energies agree with masses.dat to 0.3 keV", "synthetic discrete-level files"]
    D = data()
    def one(f, tab, cmd, prof):
        bad, fa = ev.o_decay(D, f, tab)
        for x in bad[:3]:
            ck.viol("%s (profile %s, '%s')" % (x, prof, cmd), {"cmd": cmd, "profile": prof})
        ck.ok("decays starting below the continuum" if fa["disc_start"] else "decays from the continuum", (f["Z"], f["A"], f["nn"], f["ng"], round(f["U"], 2)))
        if fa["ic"]: ck.ok("internal conversions", n=fa["ic"])
        if fa["stop"] and fa["stop"] > 1e-6: ck.ok("decays stopped by the window")
    def g(p, tab, c, e):
        for f in ev.parts(e):
            one(f, tab, e["_cmd"], p)
        ck.sample({"cmd": e["_cmd"], "profile": p, "steps": e.get("steps", [])[:6]})
    each(ck, ck.thorough(1000, 20000), g)
    frags(ck, ck.thorough(1600, 30000), one)


def fragcmds(rng, n, lowU=0.25):
    """decays of single fragments, including excitations far from what fission produces"""
    D = data()
    nucs = [z for z in D.mass if 28 <= z // 1000 <= 66 and 70 <= z % 1000 <= 172 and all((z - k) in D.mass for k in range(1, 9))]
    # near the fission line
    nucs = [z for z in nucs if abs((z // 1000) / (z % 1000) - 0.39) < 0.03]
    out = []
    for _ in range(n):
        z = rng.choice(nucs)
        A = z % 1000
        if rng.random() < lowU:
            U = 10 ** rng.uniform(-2, 0.9)
        else:
            U = rng.uniform(3, 45)
        J = (A % 2) * 0.5 + rng.randrange(0, 21)
        v = [rng.uniform(-3500, 3500) for _ in range(3)]
        out.append("frag %d %d %.9g %g %d %.9g %.9g %.9g %g %d" % (z // 1000, A, U, J, rng.choice([1, -1]), v[0], v[1], v[2], rng.choice([-1, -1, 0, 1e-8, 1e-6]), rng.randrange(1, 1 << 31)))
    return out


def frags(ck, n, one, profiles=PROFILES):
    b = build("opt")
    if not b.has("internal"):
        return
    ls = 1 + ck.seed % 5
    jobs, ps = [], []
    for i, c in enumerate(chunks(fragcmds(ck.rng, n), 2 * NPROC)):
        p = profiles[i % len(profiles)]
        jobs.append((c, rundir(p, ls))); ps.append(p)
    for r, p in zip(runmany(b, jobs), ps):
        if not finished(ck, r):
            continue
        for c, e in zip(r.cmds, r.recs):
            one(ev.fragpart(e), level_table(p, ls), c, p)


def C04(ck):
    ck.rule = "one evaluation per event (three vector balances each); distinct by (reaction, energy, fragment pair, multiplicities)"
    D = data()
    def f(p, tab, c, e):
        report(ck, ev.o_momentum(D, e), e, "momentum")
        ck.ok("events with %d pre-fission neutrons" % e["npre"], key(e))
        ck.ok("neutrons balanced", n=e["nn"])
        ck.sample({k: e[k] for k in ("za", "einc", "Lpre", "Hpre", "Lpost", "Hpost", "npre")})
    each(ck, ck.thorough(1600, 30000), f, profiles=["promptonly", "std", "sparse"], hi=0.6)


def C05(ck):
    ck.rule = "one evaluation per fragment; distinct by (fragment, multiplicities)"
    D = data()
    def one(f, tab, cmd, prof):
        bad, known = ev.o_boost(D, f)
        for x in bad[:3]:
            ck.viol("%s (profile %s, '%s')" % (x, prof, cmd), {"cmd": cmd, "profile": prof})
        ck.ok("neutrons", n=f["nn"]); ck.ok("photons", n=f["ng"])
        ck.ok("fragments", (f["Z"], f["A"], f["nn"], f["ng"]))
        if known:
            ck.known("KEpost-mass", "final kinetic energy is computed with the mass before neutron emission (e.g. '%s')" % cmd)
    def g(p, tab, c, e):
        for f in ev.parts(e):
            one(f, tab, e["_cmd"], p)
        ck.sample({"cmd": e["_cmd"], "nE": e["nE"][:2], "cE": e["cE"][:2]})
    each(ck, ck.thorough(1000, 20000), g)
    frags(ck, ck.thorough(1000, 20000), one, ["std", "noic", "isomer"])


def C06(ck):
    ck.rule = "one evaluation per event (all reported numbers); distinct by (reaction, energy, fragment pair, multiplicities)"
    def f(p, tab, c, e):
        report(ck, ev.o_wellformed(e, int(c[1]), float(c[2]), float(c[3])), e, "form")
        ck.ok("events", key(e))
        for k, n in (("neutrons", e["nn"]), ("photons", e["ng"]), ("pre-fission neutrons", e["npre"])):
            ck.ok(k, n=n)
        ck.extra["largest neutron multiplicity of a fragment"] = max(ck.extra.get("largest neutron multiplicity of a fragment", 0), e["L"][7], e["H"][7])
        ck.extra["largest photon multiplicity of a fragment"] = max(ck.extra.get("largest photon multiplicity of a fragment", 0), e["L"][8], e["H"][8])
        ck.sample({k: e[k] for k in ("za", "einc", "L", "H", "nn", "ng", "npre", "oob")})
    each(ck, ck.thorough(1700, 30000), f, hi=0.6)
