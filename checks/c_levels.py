"""C08 (times and window) and C09 (level scheme) over the transitions the cascade makes."""
from vlib import *
from work import *
import evoracle as ev, stats
from c_events import fragcmds
from c_data import no_photon

LN2 = math.log(2)


def runs(ck, b, nev, nfr, profiles, windows, times):
    """events and single-fragment decays; yields (profile, table, fragment view, command)"""
    ls = 1 + ck.seed % 5
    for p, tab, c, e in run_events(ck, b, nev, profiles=profiles, windows=windows, times=times):
        for f in ev.parts(e):
            yield p, tab, f, " ".join(c)
    if not b.has("internal"):
        return
    jobs, ps = [], []
    cm = fragcmds(ck.rng, nfr, lowU=0.85)
    cm = [" ".join(x.split()[:9] + ["%g" % ck.rng.choice(windows), x.split()[10]]) for x in cm]
    for i, c in enumerate(chunks(cm, 3 * NPROC)):
        p = profiles[i % len(profiles)]
        tab = level_table(p, ls)
        for k, x in enumerate(c):     # a share starts just above the discrete levels
            w = x.split(); l = tab.get(1000 * int(w[1]) + int(w[2]))
            if l and ck.rng.random() < 0.3:
                w[3] = "%.6f" % (l[-1][0] + ck.rng.uniform(0.01, 1.0)); c[k] = " ".join(w)
        jobs.append((c, rundir(p, ls))); ps.append(p)
    for r, p in zip(runmany(b, jobs), ps):
        if finished(ck, r):
            for c, e in zip(r.cmds, r.recs):
                yield p, level_table(p, ls), ev.fragpart(e), c


def cascades(ck, b, ncmd, n, profiles, windows, timed=False):
    """many decays from one discrete level of one nucleus; yields (profile, table of the nucleus, start level, record)"""
    ls = 1 + ck.seed % 5
    rng = random.Random(ck.seed * 77 + 5)
    jobs, info = [], []
    for i in range(ncmd):
        p = profiles[i % len(profiles)]
        tab = level_table(p, ls)
        for _ in range(2000):
            za = rng.choice(list(tab))
            lv = tab[za]
            if not (28 <= za // 1000 <= 66) or len(lv) < 4 or any(za - x not in tab for x in range(1, 13)):
                continue
            k = rng.randrange(2, len(lv) - 1)
            if not lv[k][4] or lv[k + 1][0] - lv[k][0] < 2e-4 or lv[k][0] - lv[k - 1][0] < 2e-4:
                continue
            if timed and not 1e-14 < lv[k][3] < 1e6:
                continue
            w = rng.choice(windows) if not timed else lv[k][3] * rng.choice(windows)
            jobs.append((["casc %d %d %.9f %g %d %d" % (za // 1000, za % 1000, lv[k][0], w, n, rng.randrange(1, 1 << 31))], rundir(p, ls)))
            info.append((p, lv, k))
            break
    for r, (p, lv, k) in zip(runmany(b, jobs), info):
        if finished(ck, r):
            yield p, lv, k, r.cmds[0], r.recs[0]


def C08(ck):
    ck.rule = "one evaluation per fragment; distinct by (nucleus, level passed, window)"
    ck.assume = ["half-lives as tabulated in the level file", "statistical statements are rejected only at p < 1e-7"]
    b = build("opt")
    us = []; ub = {}
    nstop = 0; mean = var = 0.0
    bywin = {}
    for p, tab, f, cmd in runs(ck, b, ck.thorough(900, 20000), ck.thorough(4000, 60000), ["isomer", "std", "highic"], [-1.0, 0.0, 1e-8, 1e-8, 1e-6, 1e-3, 3e-10, 1e-11], (0.0, 0.0, 0.0, 2e-9, 5.0, -3e-9)):
        t0, w = f["time"], f["w"]
        bad = []
        if any(x != t0 for x in f.get("nt", [])):
            bad.append("neutron emitted at %s, fission at %g" % (f["nt"], t0))
        eps = 4e-16 * abs(t0)
        prev = t0
        for x in f["gt"]:
            if x < prev - eps: bad.append("photon at %g before %g" % (x, prev))
            if w > 0 and x - t0 > w + eps: bad.append("photon %g s after fission, window %g s" % (x - t0, w))
            prev = x
        st = f.get("steps")
        if st:
            gi = 0
            prev = 0.0            # elapsed time known so far
            pend = []             # half-lives passed since then
            lv = None
            for s in st:
                a0 = tab.get(1000 * s[0] + s[1]) or [(0.0, 0, 1, -1.0, [])]
                isg = s[7] == s[1] and not s[12]
                if s[5]:
                    k = s[6]
                    if k < len(a0) and a0[k][3] > 0:
                        pend.append(a0[k][3])
                        ck.distinct.add((s[0], s[1], k, w))
                if isg:
                    if gi >= len(f["gt"]):
                        bad.append("more photons emitted than reported"); break
                    dt = f["gt"][gi] - t0 - prev
                    gi += 1
                    if not s[5] and not pend:
                        if abs(dt) > eps: bad.append("photon from the continuum delayed by %g s" % dt)
                    elif not pend:
                        if abs(dt) > eps + 1e-12 * abs(prev): bad.append("photon from a level without half-life delayed by %g s" % dt)
                    elif len(pend) == 1:
                        T = pend[0]
                        if dt < -eps: bad.append("negative lifetime %g" % dt)
                        if t0 == 0 and (dt > 1e-9 * prev or prev == 0):
                            u = math.exp(-dt * LN2 / T)
                            if w > 0:
                                # conditional on decaying inside the window
                                um = math.exp(-max(0.0, w - prev) * LN2 / T)
                                if um < 1 - 1e-9:
                                    us.append((u - um) / (1 - um)); ck.ok("lifetimes sampled (window)")
                            else:
                                us.append(u); ck.ok("lifetimes sampled")
                                ub.setdefault(int(math.log10(T)), []).append(u)
                            if dt > 60 * T: bad.append("lifetime %g s for half-life %g s" % (dt, T))
                    elif dt < -eps:
                        bad.append("negative delay %g" % dt)
                    if pend or dt > eps:
                        prev = f["gt"][gi - 1] - t0
                    # a single-level passage inside a window: could have stopped here
                    pend = []
            # stopping: replay the level passages with known entry times
            elapsed, known, gi = 0.0, True, 0
            last = st[-1]
            stopped = last[11] and last[10] > 1e-9
            if stopped and w <= 0:
                bad.append("decay stopped at %.6f MeV without a window" % last[10])
            if stopped:
                a1 = tab.get(1000 * last[0] + last[7])
                k = int(last[14])
                if not (a1 and k < len(a1) and a1[k][3] > 0):
                    bad.append("stopped in a level without half-life (%.6f MeV)" % last[10])
            if w > 0 and t0 == 0:
                for i, s in enumerate(st):
                    if s[5]:
                        a0 = tab.get(1000 * s[0] + s[1]); T = a0[s[6]][3] if a0 and s[6] < len(a0) else -1
                        if T > 0:
                            if known and elapsed <= w:
                                q = math.exp(-(w - elapsed) * LN2 / T)
                                mean += q; var += q * (1 - q)
                                m_ = bywin.setdefault(w, [0, 0.0, 0.0]); m_[1] += q; m_[2] += q * (1 - q)
                                ck.ok("window decisions")
                            if s[12] or s[7] != s[1]:
                                known = False   # converted: the time is not reported
                    if s[7] == s[1] and not s[12]:
                        elapsed = f["gt"][gi] - t0; gi += 1
                        known = True
                if stopped:
                    a1 = tab.get(1000 * last[0] + last[7]); T = a1[int(last[14])][3]
                    if known and T > 0:
                        q = math.exp(-(w - elapsed) * LN2 / T)
                        mean += q; var += q * (1 - q); nstop += 1
                        m_ = bywin.setdefault(w, [0, 0.0, 0.0]); m_[0] += 1; m_[1] += q; m_[2] += q * (1 - q)
                        ck.ok("window decisions")
                    ck.ok("decays stopped by the window")
        for x in bad[:3]:
            ck.viol("%s %s (levels %s, '%s')" % (f["side"], x, p, cmd), {"cmd": cmd, "profile": p})
        ck.ok("fragments")
        if f["gt"] and f["gt"][-1] > t0:
            ck.sample({"cmd": cmd, "levels": p, "photon ages": f["gt"], "window": w})
    # many decays from single levels with a half-life, without and with a window of a fraction or a few half-lives
    if b.has("monitor") and b.has("internal"):
        fr = [0, 0.0, 0.0]
        uw = []
        for p, lv, k, cmd, x in cascades(ck, b, ck.thorough(48, 480), ck.thorough(1200, 3000), ["isomer", "std"], [-1.0, .3, 1.0, 2.5], True):
            T, w, n = lv[k][3], x["w"], x["n"]
            moved = sum(q[1] for q in x["start"])
            if any(q[0] != k for q in x["start"]):
                ck.viol("decays of level %d start in %s ('%s', %s)" % (k, x["start"], cmd, p)); continue
            q = math.exp(-w * LN2 / T) if w > 0 else 0.0
            ck.ok("decays of a single level (%s)" % ("window" if w > 0 else "no window"), (x["Z"], x["A"], k, w), n=n)
            fr[0] += n - moved; fr[1] += n * q; fr[2] += n * q * (1 - q)
            if stats.binom_p(n - moved, n, q) < stats.ALPHA:
                ck.viol("%d of %d nuclei stay in a level of half-life %.4g s with a window of %.4g s, expected %.1f ('%s', %s)" % (n - moved, n, T, w, n * q, cmd, p))
            if w <= 0 and [e_[0] for e_ in x["end"]] != [0]:
                ck.viol("decays end in levels %s without a window ('%s', %s)" % (x["end"], cmd, p))
            for e_ in x["end"]:
                if e_[0] > 0 and not lv[e_[0]][3] > 0:
                    ck.viol("stopped in level %d without half-life ('%s', %s)" % (e_[0], cmd, p))
            u = [math.exp(-t * LN2 / T) for t in x["ages"]]
            if not 0 < w < math.inf:
                uw.append((cmd, p, T, u)); us += u
            else:
                uw.append((cmd, p, T, [(v - q) / (1 - q) for v in u])); us += uw[-1][3]
                if any(v < q - 1e-6 for v in u):
                    ck.viol("photon emitted after the window of %.4g s ('%s', %s)" % (w, cmd, p))
        for cmd, p, T, u in uw:
            # a converted first transition is not in the list, and does not depend on the time
            pv, d = stats.ks_uniform(u)
            if pv < stats.ALPHA:
                ck.viol("ages of photons from a level of half-life %.4g s do not follow the exponential law (n=%d, D=%.3f; '%s', %s)" % (T, len(u), d, cmd, p))
        ck.extra["nuclei left in a single level by the window: observed, expected"] = [fr[0], round(fr[1], 1)]
        if fr[2] > 0 and stats.zsum(*fr)[0] < stats.ALPHA:
            ck.viol("nuclei left in their level by the window: %d, expected %.1f +- %.1f" % (fr[0], fr[1], math.sqrt(fr[2])))
    pv, d = stats.ks_uniform(us)
    ck.extra["lifetimes: KS p-value"] = pv; ck.extra["lifetimes: n"] = len(us)
    if pv < stats.ALPHA:
        ck.viol("sampled lifetimes do not follow the exponential law with the tabulated half-lives (n=%d, D=%.4f, p=%.2g)" % (len(us), d, pv))
    for dec, x in ub.items():
        pv, d = stats.ks_uniform(x)
        if pv < stats.ALPHA:
            ck.viol("lifetimes for half-lives around 1e%d s do not follow the exponential law (n=%d, D=%.3f, p=%.2g)" % (dec, len(x), d, pv))
    pv, z = stats.zsum(nstop, mean, var)
    ck.extra["window stops: observed, expected"] = [nstop, round(mean, 2)]
    if pv < stats.ALPHA:
        ck.viol("fragments stopped by the window: %d, expected %.1f +- %.1f" % (nstop, mean, math.sqrt(var)))
    for w, (o, m, v) in bywin.items():
        if v > 1 and stats.zsum(o, m, v)[0] < stats.ALPHA:
            ck.viol("window %g s: %d fragments stopped, expected %.1f +- %.1f" % (w, o, m, math.sqrt(v)))


def rules(J0, P0, J1, P1):
    d = abs(J0 - J1)
    par = P0 != P1
    e1 = par and d <= 1 and J0 + J1 >= 1
    m1 = not par and d <= 1 and J0 + J1 >= 1
    e2 = not par and d <= 2 and J0 + J1 >= 2
    return e1 or m1 or e2


def C09(ck):
    ck.rule = "one evaluation per transition; distinct by (nucleus, initial level, final level)"
    ck.assume = ["levels without listed transitions decay by E1 or, failing that, to the closest spin", "a nucleus whose continuum ends just above the discrete levels is moved to an E1-allowed or, failing that, nearest-spin level"]
    b = build("opt")
    pit = []; rng = random.Random(5)
    sl = [0.0, 0.0, 0.0]; ic = [0.0, 0.0, 0.0]
    icb = {}
    first = [0, 0.0, 0.0]
    if not b.has("monitor"):
        return c09_public(ck, b)
    for p, tab, f, cmd in runs(ck, b, ck.thorough(700, 16000), ck.thorough(4500, 70000), ["std", "isomer", "noic", "highic", "dense", "ladder"], [-1.0, -1.0, 1e-8, 1e-6], (0.0,)):
        bad = []
        for s in f.get("steps") or []:
            Z, A0, J0, P0, E0, d0, K0, A1, J1, P1, E1, d1, isic, en, K1 = s
            K1 = int(K1)
            lv = tab.get(1000 * Z + A0)
            if d1:
                l1 = tab.get(1000 * Z + A1) or [(0.0, None, None, -1.0, [])]
                if not (0 <= K1 < len(l1)) or abs(l1[K1][0] - E1) > 1e-9:
                    bad.append("Z=%d A=%d reaches a level at %.6f (number %d) that is not in the file" % (Z, A1, E1, K1)); continue
            if d0:
                ck.ok("discrete transitions", (Z, A0, K0, K1))
                if A1 != A0:
                    bad.append("neutron from discrete level"); continue
                if not lv or not 0 < K0 < len(lv) or abs(lv[K0][0] - E0) > 1e-9:
                    bad.append("Z=%d A=%d level %d at %.6f not in the file" % (Z, A0, K0, E0)); continue
                g = lv[K0][4]
                if not g:
                    if K1 not in no_photon(lv, K0): bad.append("Z=%d A=%d level %d, which has no listed photon, decays to %d instead of one of %s" % (Z, A0, K0, K1, no_photon(lv, K0)))
                    ck.ok("transitions of levels without photon data")
                    continue
                tot = sum(x[1] for x in g)
                pr = [x[1] / tot for x in g] if tot > 0 else [1.0 / len(g)] * len(g)
                j = [i for i, x in enumerate(g) if x[0] == K1]
                if not j or (pr[j[0]] <= 0):
                    bad.append("Z=%d A=%d level %d -> %d is not listed (%s)" % (Z, A0, K0, K1, [x[0] for x in g])); continue
                j = j[0]
                if len(g) > 1:
                    pit.append(sum(pr[:j]) + rng.random() * pr[j])
                    h = -sum(q * math.log(q) for q in pr if q > 0); h2 = sum(q * math.log(q) ** 2 for q in pr if q > 0)
                    sl[0] += -math.log(pr[j]); sl[1] += h; sl[2] += h2 - h * h
                    first[0] += j == 0; first[1] += pr[0]; first[2] += pr[0] * (1 - pr[0])
                cc = g[j][2] if tot > 0 else 0.0
                q = cc / (1 + cc)
                if q == 0 and isic:
                    bad.append("Z=%d A=%d level %d -> %d converted although its coefficient is zero" % (Z, A0, K0, K1))
                ic[0] += isic; ic[1] += q; ic[2] += q * (1 - q)
                if q > 0:
                    c_ = icb.setdefault(min(9, int(q * 10)), [0, 0.0, 0.0]); c_[0] += isic; c_[1] += q; c_[2] += q * (1 - q)
                    ck.ok("transitions with a conversion coefficient")
            elif d1 and A1 == A0:
                if isic:
                    bad.append("continuum transition converted")
                h = 0.5 if A0 % 2 else 0.0
                j0, j1 = J0 + h, J1 + h
                l1 = lv or [(0.0, j1, P1, -1, [])]
                if lv and (l1[K1][1] != j1 or l1[K1][2] != P1):
                    bad.append("Z=%d A=%d level %d has spin %g%+d in the file, %g%+d in the cascade" % (Z, A0, K1, l1[K1][1], l1[K1][2], j1, P1))
                ck.ok("continuum to discrete transitions", (Z, A0, int(J0), P0, K1))
                if lv and not rules(j0, P0, j1, P1):
                    # legal only as a forced transition at the end of the continuum
                    e1 = [k for k, l in enumerate(l1) if l[2] * P0 < 0 and abs(l[1] - j0) < 2 and l[1] + j0 >= 1]
                    if not e1 and abs(j1 - j0) == min(abs(l[1] - j0) for l in l1):
                        ck.ok("forced to the nearest spin")
                    else:
                        bad.append("Z=%d A=%d continuum state %g%+d -> level %d %g%+d violates the selection rules" % (Z, A0, j0, P0, K1, j1, P1))
        for x in bad[:3]:
            ck.viol("%s (levels %s, '%s')" % (x, p, cmd), {"cmd": cmd, "profile": p})
        if f.get("steps") and f["steps"][-1][5]:
            ck.sample({"cmd": cmd, "levels": p, "discrete steps": [[s[6], int(s[14]), s[12]] for s in f["steps"] if s[5]]})
    # many decays from single levels: every branching ratio and conversion probability with statistics of its own
    c2 = [0.0, 0]
    for p, lv, k, cmd, x in cascades(ck, b, ck.thorough(64, 640), ck.thorough(1500, 3000), ["std", "highic", "isomer", "dense"], [-1.0]):
        if [q[0] for q in x["start"]] != [k] or [q[0] for q in x["end"]] != [0]:
            ck.viol("decays of level %d start in %s and end in %s ('%s', %s)" % (k, x["start"], x["end"], cmd, p)); continue
        lvl = {}
        for a, k0, k1, isic, c in x["cnt"]:
            t = lvl.setdefault(k0, {}).setdefault(k1, [0, 0]); t[isic] += c
        for k0, t in lvl.items():
            g = lv[k0][4]
            if not g:
                continue
            tot = sum(q[1] for q in g)
            pr = {}
            for q in g:
                pr[q[0]] = pr.get(q[0], 0.0) + (q[1] / tot if tot > 0 else 1.0 / len(g))
            N = sum(sum(v) for v in t.values())
            bad = [k1 for k1 in t if pr.get(k1, 0.0) <= 0]
            if bad:
                ck.viol("level %d -> %s is not listed ('%s', %s)" % (k0, bad, cmd, p)); continue
            ck.ok("transitions of many-decay samples", n=N)
            if len(pr) > 1 and N > 50:
                pv, ch, nd = stats.chi2_counts([sum(t.get(k1, [0, 0])) for k1 in pr], [N * v for v in pr.values()])
                c2[0] += ch; c2[1] += nd
                if pv < stats.ALPHA:
                    ck.viol("branching of level %d: observed %s, tabulated %s ('%s', %s)" % (k0, {k1: sum(v) for k1, v in t.items()}, {k1: round(v, 4) for k1, v in pr.items()}, cmd, p))
            if len(pr) == len(g):
                for q in g:
                    m = t.get(q[0], [0, 0]); nt = m[0] + m[1]
                    cc = q[2] if tot > 0 else 0.0
                    f = cc / (1 + cc)
                    ic[0] += m[1]; ic[1] += nt * f; ic[2] += nt * f * (1 - f)
                    if f > 0:
                        c_ = icb.setdefault(min(9, int(f * 10)), [0, 0.0, 0.0]); c_[0] += m[1]; c_[1] += nt * f; c_[2] += nt * f * (1 - f)
                    if nt and stats.binom_p(m[1], nt, f) < stats.ALPHA:
                        ck.viol("level %d -> %d: %d of %d transitions converted, tabulated probability %.4f ('%s', %s)" % (k0, q[0], m[1], nt, f, cmd, p))
    if c2[1]:
        pv = stats.chi2_p(c2[0], c2[1])
        ck.extra["branching chi2, degrees of freedom"] = [round(c2[0], 1), c2[1]]
        if pv < stats.ALPHA:
            ck.viol("branching ratios of many-decay samples: chi2 %.1f for %d degrees of freedom" % (c2[0], c2[1]))
    pv, d = stats.ks_uniform(pit)
    ck.extra["branching: KS p-value, n"] = [pv, len(pit)]
    if pv < stats.ALPHA:
        ck.viol("branching ratios not followed (n=%d, D=%.4f, p=%.2g)" % (len(pit), d, pv))
    for nm, (o, m, v) in (("branching log-likelihood", sl), ("internal conversions", ic), ("first branches", first)):
        pv, z = stats.zsum(o, m, v)
        ck.extra[nm + ": observed, expected, z"] = [round(o, 2), round(m, 2), round(z, 2)]
        if pv < stats.ALPHA:
            ck.viol("%s: observed %.1f, expected %.1f +- %.1f" % (nm, o, m, math.sqrt(v)))
    for k, (o, m, v) in icb.items():
        pv, z = stats.zsum(o, m, v)
        if v > 3 and pv < stats.ALPHA:
            ck.viol("conversion probability %.1f-%.1f: observed %d, expected %.1f +- %.1f" % (k / 10, k / 10 + .1, o, m, math.sqrt(v)))


def c09_public(ck, b):
    """without the hook: photons of events whose levels have neither conversion nor lifetimes"""
    D = data()
    for p, tab, f, cmd in runs(ck, b, ck.thorough(900, 16000), ck.thorough(3000, 30000), ["promptonly", "dense"], [-1.0], (0.0,)):
        lv = tab.get(1000 * f["Z"] + f["A"] - f["nn"])
        gc = ev.cmgammas(D, f)
        if not lv or not gc or not any(l[4] for l in lv[1:]) and len(lv) > 1:
            continue
        # from the end: each photon must lead from a listed level to a listed level while below the top
        k = 0
        for g in reversed(gc):
            E = lv[k][0] + g
            m = [i for i, l in enumerate(lv) if abs(l[0] - E) < 2e-5]
            if not m:
                if E < lv[-1][0] - 0.05:
                    ck.viol("Z=%d A=%d: photon %.6f ends in level %d but starts at no level ('%s', %s)" % (f["Z"], f["A"] - f["nn"], g, k, cmd, p))
                break
            if lv[m[0]][4] and k not in [x[0] for x in lv[m[0]][4]]:
                break          # a primary transition may coincide in energy
            ck.ok("transitions (public view)", (f["Z"], f["A"], m[0], k))
            k = m[0]
