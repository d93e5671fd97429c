"""C25: the compound-nucleus decay interface."""
from vlib import *
from work import *
import evoracle as ev

DE = 0.05
LINES = 30


def nuclei(D, tab):
    """nuclei whose decay stays inside the mass table, and (mostly) the level file"""
    m = D.mass
    if not hasattr(D, "kck"):
        D.kck = set()
        for l in D.rows("kcksyst.dat"):
            try: D.kck.add(1000 * int(l.split()[0]) + int(l.split()[1]))
            except (ValueError, IndexError): pass
    if not hasattr(D, "cgmgood"): D.cgmgood = [z for z in sorted(m) if 14 <= z // 1000 <= 92 and all(z - k in m and z - k in D.kck for k in range(12)) and all(D.Sn(z // 1000, z % 1000 - k) > .3 for k in range(11))]
    return D.cgmgood, [z for z in D.cgmgood if z in tab]


def bins(energies):
    """occupied bins, ascending; None where an energy sits on a bin edge within rounding"""
    ks, amb = set(), set()
    for e in energies:
        x = e / DE + .5
        k = int(math.floor(x + 1e-12))
        if abs(x - round(x)) < 1.1e-4:
            amb |= {int(round(x)), int(round(x)) - 1}
        elif k > 0:
            ks.add(k)
    return ks, amb


def energy_cmd(rng, D, zs, hi):
    z = rng.choice(zs)
    x = rng.random()
    try:
        sn = D.Sn(z // 1000, z % 1000)
    except KeyError:
        sn = 7.
    if x < .15: e = 10 ** rng.uniform(-3, .6)
    elif x < .35: e = rng.uniform(.05, 6)
    elif x < .5: e = max(.05, sn + rng.uniform(-.5, .5))
    elif x < .9: e = rng.uniform(1, 30)
    else: e = rng.uniform(20, hi)
    return z, float("%.6g" % e)


def C25(ck):
    ck.rule = "one evaluation per decay; distinct by (nucleus, rounded energy, number of lines)"
    ck.assume = ["particles below half a bin (25 keV) fall into the zero bin, which is not listed; at most 30 lines of each kind are returned", "conversion electrons are entered like photons"]
    D = data()
    b = build("opt")
    mon = b.has("monitor")
    rng = ck.rng
    jobs, info = [], []
    levseed = 1 + ck.seed % 5
    N = ck.thorough(3600, 60000)
    for i in range(N // 60):
        p = PROFILES[i % len(PROFILES)]
        tab = level_table(p, levseed)
        far, near_ = nuclei(D, tab)
        cm = []
        for k in range(60):
            z, e = energy_cmd(rng, D, near_ if rng.random() < .85 else far, 60.)
            if rng.random() < .12:      # a fission event before it, sometimes with a window
                za, en = reaction(rng)
                cm.append("%s %d %.8g 0 %g %d" % (rng.choice(["ev", "cev"]), za, en, rng.choice(WINDOWS), rng.randrange(1 << 30)))
            if rng.random() < .04: cm += ["del", "cleanup"]
            cm.append("%s %d %.8g %d" % (rng.choice(["cgm", "cgm", "cgmpp"]), z, e, rng.randrange(1, 1 << 31)))
        jobs.append((cm, rundir(p, levseed))); info.append(p)
    ref = {}
    for r, p in zip(runmany(b, jobs), info):
        if not finished(ck, r):
            continue
        tab = level_table(p, levseed)
        for c, x in zip(r.cmds, r.recs):
            if x.get("k") != "cgm":
                continue
            ref[(p, c)] = (x["g"], x["n"], x["draws"])
            one(ck, D, tab, p, c, x, mon)
    again(ck, b, ref, levseed)
    refuse(ck, b)
    recorded(ck, b)


def recorded(ck, b):
    import c_golden as G
    g = G.load("cgm")
    for (p, c, want), x in G.run_items(ck, b, g[:ck.thorough(2500, len(g))]):
        ck.ok("decays compared with the recorded release")
        ng, nn = [int(round(v / DE)) for v in x["g"]], [int(round(v / DE)) for v in x["n"]]
        if [ng, nn] != want:
            ck.viol("'%s' (levels %s): photon and neutron bins %s %s, recorded %s" % (c, p, ng, nn, want), {"cmd": c, "profile": p})


def record():
    import c_golden as G
    D = data(); b = build("opt"); rng = random.Random("golden-cgm")
    class Q:
        def viol(self, *a): print("FAILED", a); sys.exit(1)
    items = []
    for i in range(10000):
        p = G.PROF[i % len(G.PROF)]
        far, near_ = nuclei(D, level_table(p, G.LS))
        z, e = energy_cmd(rng, D, near_ if rng.random() < .85 else far, 60.)
        items.append((p, "cgm %d %.8g %d" % (z, e, rng.randrange(1, 1 << 31)), None))
    res = {}
    for it, x in G.run_items(Q(), b, items):
        res[id(it)] = [[int(round(v / DE)) for v in x["g"]], [int(round(v / DE)) for v in x["n"]]]
    G.save("cgm", [[i[0], i[1], res[id(i)]] for i in items])


def one(ck, D, tab, p, c, x, mon):
    Z, A, U = x["za"] // 1000, x["za"] % 1000, x["ex"]
    bad = []
    g, n = x["g"], x["n"]
    lab = "'%s' (levels %s)" % (c, p)
    if not (0 <= x["ng"] <= LINES and 0 <= x["nn"] <= LINES and x["ng"] == len(g) and x["nn"] == len(n)):
        bad.append("%d photon and %d neutron lines" % (x["ng"], x["nn"]))
    lv = tab.get(x["za"]) or [(0.0, 0, 1, -1., [])]
    start = lv[ev.nearest(lv, U)][0] if U < max(l[0] for l in lv) + .2 else U     # a nucleus below its continuum starts in the nearest level
    for nm, l in (("photon", g), ("neutron", n)):
        ks = [v / DE for v in l]
        if any(abs(k - round(k)) > 1e-6 or round(k) < 1 for k in ks):
            bad.append("%s lines off the 50-keV grid: %s" % (nm, l))
        if any(a >= b_ for a, b_ in zip(ks, ks[1:])):
            bad.append("%s lines not in ascending order: %s" % (nm, l))
        if l and max(l) > max(U, start) + DE:
            bad.append("%s line of %g MeV from %g MeV" % (nm, max(l), U))
    if not bad and n:
        try:
            s = sum(D.Sn(Z, A - k) for k in range(len(n))) + sum(n)
            if s > U + .5 * DE * len(n) + ev.SNTOL * len(n):
                bad.append("neutron lines %s need %.3f MeV of %.3f" % (n, s, U))
        except KeyError:
            bad.append("more neutrons than the mass table allows")
    if mon and "steps" in x and not bad:
        st = x["steps"]
        kn, an = bins([s[13] for s in st if s[7] != s[1]])
        kg, ag = bins([s[13] for s in st if s[7] == s[1]])
        for nm, l, ks, amb in (("photon", g, kg, ag), ("neutron", n, kn, an)):
            got = {int(round(v / DE)) for v in l}
            want = ks
            if len(l) == LINES and len(ks | amb) >= LINES:
                top = max(got); want = {k for k in ks if k <= top}
                ck.ok("full line lists")
            if (want - got) - amb or (got - ks) - amb:
                bad.append("%s lines in bins %s, emitted into %s (energies %s)" % (nm, sorted(got), sorted(ks), ["%.5f" % s[13] for s in st if (s[7] == s[1]) == (nm == "photon")]))
        if not st:
            k = ev.nearest(lv, U)
            if k != 0: bad.append("no decay although the nearest level is at %.4f" % lv[k][0])
        else:
            s0 = st[0]
            if (s0[0], s0[1]) != (Z, A): bad.append("decay starts in Z=%d A=%d" % (s0[0], s0[1]))
            if s0[5]:
                best = min(abs(l[0] - U) for l in lv)
                if abs(abs(s0[4] - U) - best) > 1e-6: bad.append("starts in the level at %.6f, the nearest is %.6f away" % (s0[4], best))
                ck.ok("decays starting in a level")
            elif abs(s0[4] - U) > 1e-6: bad.append("starts at %.6f" % s0[4])
            for a, b_ in zip(st, st[1:]):
                if not ev.linked(a, b_): bad.append("transitions %s and %s are not linked" % (a, b_)); break
            for s in st:
                de = s[4] - s[10]; tol = 1e-6
                for a_, d_, k_, e_ in ((s[1], s[5], s[6], s[4]), (s[7], s[11], s[14], s[10])):
                    l_ = tab.get(1000 * Z + a_) or [(0.0, 0, 1, -1., [])]
                    k_ = int(k_)
                    if d_ and (not 0 <= k_ < len(l_) or abs(l_[k_][0] - e_) > 1e-9):
                        bad.append("visits a level of A=%d at %.6f that is not in the file" % (a_, e_))
                if s[5] and s[11] and s[7] == s[1]:
                    g_ = (tab.get(1000 * Z + s[1]) or [(0.0, 0, 1, -1., [])])[int(s[6])][4] if int(s[6]) < len(tab.get(1000 * Z + s[1]) or [0]) and tab.get(1000 * Z + s[1]) else []
                    if g_ and int(s[14]) not in [q[0] for q in g_]:
                        bad.append("level %d of A=%d goes to level %d, which is not listed" % (int(s[6]), s[1], int(s[14])))
                if s[7] == s[1] - 1:
                    try: de -= D.Sn(Z, s[1])
                    except KeyError: continue
                    tol = ev.SNTOL
                elif s[7] != s[1]: bad.append("transition changes A by %d" % (s[7] - s[1]))
                if abs(de - s[13]) > tol or s[13] < -1e-9:
                    bad.append("transition A=%d %.6f -> A=%d %.6f carries %.6f, not %.6f MeV" % (s[1], s[4], s[7], s[10], s[13], de))
            if st[-1][10] > 1e-9 or not st[-1][11]:
                bad.append("decay ends at %.6f MeV in A=%d" % (st[-1][10], st[-1][7]))
            ck.ok("transitions", n=len(st))
    elif not bad:
        # without the trace: the lines must be able to carry the energy
        s = sum(g) + sum(n)
        try: s += sum(D.Sn(Z, A - k) for k in range(len(n)))
        except KeyError: pass
        top = max(l[0] for l in lv)
        if U > top + .1 and s > U + .5 * DE * (len(g) + len(n)) + .001:
            bad.append("lines carry %.4f of %.4f MeV" % (s, U))
    ck.ok("decays", (x["za"], round(U, 1), x["ng"], x["nn"]))
    ck.sample({"cmd": c, "levels": p, "photons": g, "neutrons": n})
    for q in bad[:3]:
        ck.viol("%s: %s" % (lab, q), {"cmd": c, "profile": p})


def again(ck, b, ref, levseed):
    """the same decays in other orders, through the other interface, in fresh processes"""
    keys = sorted(ref)
    ck.rng.shuffle(keys)
    keys = keys[:ck.thorough(900, 15000)]
    by = {}
    for p, c in keys:
        by.setdefault(p, []).append(c)
    jobs, info = [], []
    for p, l in by.items():
        for ch in chunks(l, 4):
            jobs.append(([swap(c) for c in ch], rundir(p, levseed))); info.append((p, ch))
    for r, (p, ch) in zip(runmany(b, jobs), info):
        if not finished(ck, r):
            continue
        for c, x in zip(ch, r.recs):
            ck.ok("decays repeated after another history and through the other interface")
            if (x["g"], x["n"], x["draws"]) != ref[(p, c)]:
                ck.viol("'%s' (levels %s) gives %s %s, before %s" % (c, p, x["g"], x["n"], ref[(p, c)][:2]), {"cmd": c})


def swap(c):
    w = c.split()
    return " ".join([{"cgm": "cgmpp", "cgmpp": "cgm"}[w[0]]] + w[1:])


def refuse(ck, b):
    d = rundir("std", 1)
    bad = [(0, 5.), (5011, 5.), (119300, 5.), (50311, 5.), (60305, 10.), (6011, 3.), (40100, 0.), (40100, -1.), (40100, 126.), (40100, 500.), (-40100, 5.), (40100, 125.5), (5012, 6.), (5013, 3.), (119295, 8.), (118301, 9.), (112301, 4.), (6010, 5.), (92236, 124.95), (55140, 124.951), (92236, -1e-300), (26056, 1e9)]
    for r, (z, e) in zip(runmany(b, [(["cgm %d %g 1" % (z, e)], d) for z, e in bad]), bad):
        ck.ok("refused requests", ("refuse", z, e))
        if r.rc == 0 or r.rc < 0 or r.rc in (97, 98, 99):
            ck.viol("cgm of Z,A=%d at %g MeV is out of range but ended with status %s" % (z, e, r.rc))
        elif not r.err.strip():
            ck.viol("cgm of Z,A=%d at %g MeV was refused without a diagnostic" % (z, e))
        elif any(x.get("k") == "cgm" for x in r.recs):
            ck.viol("cgm of Z,A=%d at %g MeV returned a decay" % (z, e))
