"""Oracles over what a client can observe of an event (driver records)."""
import math
import nuc
from nuc import MN, AMU


def parts(e):
    """split an event record into its two fragments' particle lists"""
    out = []
    n0 = g0 = 0
    for s in "LH":
        F = e[s]
        nn, ng = int(F[7]), int(F[8])
        f = {"side": s, "A": int(F[0]), "Z": int(F[1]), "KE": F[2], "KEpost": F[3], "U": F[4], "J": F[5], "P": int(F[6]), "nn": nn, "ng": ng,
             "pre": e[s + "pre"], "post": e[s + "post"], "dir": e.get(s + "dir"), "w": e["w"], "time": e["time"]}
        for k in ("nE", "nu", "nv", "nw", "nt", "cE", "cu", "cv", "cw"):
            f[k] = e[k][n0:n0 + nn]
        for k in ("gE", "gu", "gv", "gw", "gt"):
            f[k] = e[k][g0:g0 + ng]
        n0 += nn; g0 += ng
        out.append(f)
    if "steps" in e:
        ch = chains(e["steps"])
        for f in out:
            f["steps"] = []
        if len(ch) == 2:
            out[0]["steps"], out[1]["steps"] = ch
        elif len(ch) == 1:
            z, a = ch[0][0][0], ch[0][0][1]
            i = 0 if (z, a) == (out[0]["Z"], out[0]["A"]) else 1
            out[i]["steps"] = ch[0]
        elif len(ch) > 2:
            for f in out:
                f["steps"] = None
            out[0]["badchains"] = len(ch)
    return out


def fragpart(r):
    """the same view of a single-fragment record ('frag' command)"""
    f = {"side": "F", "A": r["A"], "Z": r["Z"], "KEpost": r["KEpost"], "U": r["U"], "J": r["J"], "P": r["P"], "nn": r["nn"], "ng": r["ng"],
         "pre": r["pre"], "post": r["post"], "w": r["w"], "time": 0.0}
    for k in ("nE", "nu", "nv", "nw", "cE", "cu", "cv", "cw", "gE", "gu", "gv", "gw", "gt", "gc"):
        f[k] = r[k]
    if "steps" in r:
        ch = chains(r["steps"])
        f["steps"] = ch[0] if len(ch) == 1 else ([] if not ch else None)
        if len(ch) > 1: f["badchains"] = len(ch)
    return f


# a step: [Z0,A0,J0,P0,E0,disc0,K0,A1,J1,P1,E1,disc1,ic,energy,K1]
def linked(a, b):
    return a[0] == b[0] and a[7] == b[1] and a[10] == b[4] and a[14] == b[6] and bool(a[11]) == bool(b[5])


def chains(steps):
    out = []
    for s in steps:
        if out and linked(out[-1][-1], s):
            out[-1].append(s)
        else:
            out.append([s])
    return out


def finite(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x)


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def o_conserve(e):
    """C01"""
    bad = []
    Z, A = nuc.compound(e["za"], e["einc"])
    L, H = e["L"], e["H"]
    if L[0] + H[0] + e["npre"] != A:
        bad.append("mass numbers %g+%g+%d pre-fission neutrons != %d" % (L[0], H[0], e["npre"], A))
    if L[1] + H[1] != Z:
        bad.append("charges %g+%g != %d" % (L[1], H[1], Z))
    if L[0] > H[0]:
        bad.append("light fragment A=%g heavier than heavy A=%g" % (L[0], H[0]))
    if e["nn"] != L[7] + H[7]:
        bad.append("neutron total %d != %g+%g" % (e["nn"], L[7], H[7]))
    if e["ng"] != L[8] + H[8]:
        bad.append("photon total %d != %g+%g" % (e["ng"], L[8], H[8]))
    for F in (L, H):
        if not (0 < F[1] < F[0]):
            bad.append("impossible fragment Z=%g A=%g" % (F[1], F[0]))
        if F[0] - F[7] <= F[1]:
            bad.append("more neutrons emitted (%g) than available in Z=%g A=%g" % (F[7], F[1], F[0]))
    return bad


def prefission(D, e):
    """residual excitation and momentum of the fissioning nucleus from the reported pre-fission neutrons"""
    Z, A0 = nuc.compound(e["za"], e["einc"])
    p = [0.0, 0.0, math.sqrt(2 * MN * e["einc"])]
    a = A0
    exc = [e["einc"] + (D.Sn(Z, A0) if e["einc"] > 0 else 0.0)]
    ecms = []
    for i in range(e["npre"]):
        v = math.sqrt(max(0.0, 2 * e["pE"][i] / MN))
        vl = [v * e["pu"][i], v * e["pv"][i], v * e["pw"][i]]
        M = D.M(Z, a)
        ecm = MN / 2 * sum((vl[k] - p[k] / M) ** 2 for k in range(3))
        ecms.append(ecm)
        exc.append(exc[-1] - ecm - D.Sn(Z, a))
        a -= 1
        p = [p[k] - MN * vl[k] for k in range(3)]
    return Z, a, exc, p, ecms


BIN = 0.0256   # half an energy bin (pre-fission neutron energies are sampled on the 50 keV grid)


def o_scission(D, e):
    """C02"""
    bad = []
    Z, A, exc, p, ecms = prefission(D, e)
    L, H = e["L"], e["H"]
    try:
        Q = D.me(Z, A) - D.me(int(L[1]), int(L[0])) - D.me(int(H[1]), int(H[0]))
        ml, mh = D.M(int(L[1]), int(L[0])), D.M(int(H[1]), int(H[0]))
    except KeyError:
        return ["fragment not in the mass table: L Z=%g A=%g, H Z=%g A=%g" % (L[1], L[0], H[1], H[0])]
    tol = 1e-5 + BIN * e["npre"]
    bal = L[2] + H[2] + L[4] + H[4] - Q - exc[-1]
    if not abs(bal) <= tol:
        bad.append("TKE+TXE exceeds the available energy by %.6g MeV (tolerance %.3g; %d pre-fission neutrons)" % (bal, tol, e["npre"]))
    if not (L[4] > 0 and H[4] > 0):
        bad.append("excitation energies %.6g, %.6g not positive" % (L[4], H[4]))
    if not (L[2] > 0 and H[2] > 0):
        bad.append("kinetic energies %.6g, %.6g not positive" % (L[2], H[2]))
    tke = L[2] + H[2]
    for F, other, nm in ((L, mh, "light"), (H, ml, "heavy")):
        want = tke * other / (ml + mh)
        if not abs(F[2] - want) <= 1e-5 * tke:
            bad.append("%s fragment takes %.6f of the kinetic energy, two-body share is %.6f" % (nm, F[2], want))
    return bad


def cmgammas(D, f):
    """centre-of-mass photon energies by undoing the Doppler shift"""
    if "gc" in f:
        return f["gc"]
    A = f["A"] - f["nn"]
    try:
        b = norm(f["post"]) / D.M(f["Z"], A)
    except KeyError:
        return None
    return [E * (1 - b * c) / math.sqrt(1 - b * b) for E, c in zip(f["gE"], f["gu"])]


def nearest(levels, U):
    return min(range(len(levels)), key=lambda i: abs(levels[i][0] - U))


SNTOL = 3e-4   # the decay and the mass table differ by 0.11 keV in the neutron mass excess


def o_decay(D, f, tab):
    """C03: where did the excitation energy go; tab: level table (zaid -> levels). Returns (problems, facts)"""
    bad = []
    facts = {"stop": None, "ic": 0, "disc_start": False}
    Z, A, U = f["Z"], f["A"], f["U"]
    name = "%s Z=%d A=%d U=%.6f" % (f["side"], Z, A, U)
    E = U
    a = A
    for i, ec in enumerate(f["cE"]):
        try:
            sn = D.Sn(Z, a)
        except KeyError:
            return ["%s: residue A=%d not in the mass table" % (name, a - 1)], facts
        if not ec > 0:
            bad.append("%s: neutron %d has centre-of-mass energy %g" % (name, i, ec))
        E -= sn + ec
        a -= 1
        if E < -1e-6 - SNTOL * (i + 1):
            bad.append("%s: neutron %d is not energetically allowed (residual excitation %.6f)" % (name, i, E))
    lv = tab.get(1000 * Z + a) or [(0.0, 0, 1, -1.0, [])]
    gc = cmgammas(D, f)
    if gc is None:
        return bad + ["%s: residue not in the mass table" % name], facts
    for g in gc:
        E -= g
    rest = E            # internal conversion plus the level in which decay stopped
    st = f.get("steps")
    if f.get("badchains"):
        bad.append("%s: transitions do not form a chain (%d pieces)" % (name, f["badchains"]))
        return bad, facts
    start_lv = tab.get(1000 * Z + A) or lv
    if st is not None and "steps" in f:
        if not st:
            # nothing happened: must have been born in (or nearest to) the ground state, or stuck in a level
            k = nearest(start_lv, U)
            facts["disc_start"] = True
            if f["nn"] or f["ng"]:
                bad.append("%s: particles without transitions" % name)
            elif f["w"] > 0:
                if not start_lv[k][0] <= max(1e-9, U + abs(start_lv[k][0] - U)): bad.append("%s: no decay" % name)
            elif k != 0:
                bad.append("%s: did not decay although the nearest level is at %.6f" % (name, start_lv[k][0]))
            facts["stop"] = start_lv[k][0] if f["w"] > 0 else 0.0
            return bad, facts
        s0 = st[0]
        if (s0[0], s0[1]) != (Z, A):
            bad.append("%s: decay starts in Z=%d A=%d" % (name, s0[0], s0[1]))
        if s0[5]:
            facts["disc_start"] = True
            best = min(abs(l[0] - U) for l in start_lv)
            if abs(abs(s0[4] - U) - best) > 1e-6:
                bad.append("%s: starts in the level at %.6f, nearest is %.6f away" % (name, s0[4], best))
            E0 = s0[4]
        else:
            E0 = U
            if abs(s0[4] - U) > 1e-6:
                bad.append("%s: decay starts at %.6f" % (name, s0[4]))
        ns, gs, ic = [], [], 0.0
        for s in st:
            de = s[4] - s[10]
            tol = 1e-6
            if s[7] == s[1] - 1:
                de -= D.Sn(Z, s[1])
                tol = SNTOL
                ns.append(s[13])
            elif s[7] == s[1]:
                if s[12]:
                    ic += s[13]; facts["ic"] += 1
                else:
                    gs.append(s[13])
            else:
                bad.append("%s: transition changes A by %d" % (name, s[7] - s[1]))
            if abs(de - s[13]) > tol:
                bad.append("%s: transition %.6f -> %.6f (A %d -> %d) carries %.6f instead of %.6f MeV" % (name, s[4], s[10], s[1], s[7], s[13], de))
            if s[13] < -1e-9:
                bad.append("%s: transition with negative energy %.6f" % (name, s[13]))
        if len(ns) != f["nn"] or any(abs(x - y) > 1e-6 for x, y in zip(ns, f["cE"])):
            bad.append("%s: reported neutrons %s, emitted %s" % (name, f["cE"], ns))
        if len(gs) != f["ng"] or any(abs(x - y) > 1e-6 * (1 + x) for x, y in zip(gs, gc)):
            bad.append("%s: reported photons (c.m.) %s, emitted %s" % (name, gc, gs))
        last = st[-1]
        stop = last[10]
        if not last[11]:
            bad.append("%s: decay ends in the continuum at %.6f MeV" % (name, last[10]))
        if min(abs(l[0] - stop) for l in (tab.get(1000 * Z + last[7]) or [(0.0,)])) > 1e-6:
            bad.append("%s: decay ends at %.6f, not a level" % (name, stop))
        if f["w"] <= 0 and stop > 1e-9:
            bad.append("%s: decay stops at %.6f MeV although no window was asked for" % (name, stop))
        facts["stop"] = stop
        facts["icE"] = ic
        if abs(rest - (ic + stop) - (U - E0)) > 2e-6 * (1 + U) + SNTOL * f["nn"]:
            bad.append("%s: energy not accounted for: %.6g MeV" % (name, rest - ic - stop - (U - E0)))
    else:
        # public interface only: what is missing must be conversion and/or a final level
        top = max(l[0] for l in start_lv)
        if f["nn"] == 0 and U <= top + 0.06:
            facts["disc_start"] = True
            slack = max([abs(a_[0] - b_[0]) for a_, b_ in zip(start_lv, start_lv[1:])] + [0.1])
        else:
            slack = 0.0
        eps = 1e-5 + SNTOL * f["nn"]
        if rest < -eps - slack:
            bad.append("%s: emits %.6g MeV more than it had" % (name, -rest))
        noic = all(g[2] == 0.0 for l in lv for g in l[4])
        if noic and not slack:
            if f["w"] <= 0:
                if abs(rest) > eps:
                    bad.append("%s: %.6g MeV of excitation unaccounted for" % (name, rest))
            elif min(abs(l[0] - rest) for l in lv) > eps:
                bad.append("%s: remaining %.6g MeV is not a level" % (name, rest))
        elif not slack and rest > max(l[0] for l in lv) + eps:
            # everything missing must be inside the discrete scheme
            bad.append("%s: remaining %.6g MeV above the discrete levels" % (name, rest))
        facts["stop"] = rest
    return bad, facts


def o_momentum(D, e):
    """C04"""
    bad = []
    Z, A, exc, p, ecms = prefission(D, e)
    # total momentum
    tot = [e["Lpre"][k] + e["Hpre"][k] - p[k] for k in range(3)]
    if not norm(tot) <= 1e-6 * (1 + norm(e["Lpre"])) + 1e-3 * 0:
        bad.append("fragments + pre-fission neutrons - incident neutron momentum = %s MeV/c" % ["%.4g" % x for x in tot])
    L, H = e["L"], e["H"]
    try:
        ml, mh, mc = D.M(int(L[1]), int(L[0])), D.M(int(H[1]), int(H[0])), D.M(Z, A)
    except KeyError:
        return bad + ["fragment not in the mass table"]
    # relative motion carries the kinetic energy not in the motion of the centre of mass
    v = [x / mc for x in p]
    rel = [e["Lpre"][k] - ml * v[k] for k in range(3)]
    mu = ml * mh / (ml + mh)
    tke = L[2] + H[2]
    want = tke - 0.5 * (ml + mh) * sum(x * x for x in v)
    got = sum(x * x for x in rel) / 2 / mu
    if not abs(got - want) <= 2e-5 * tke:
        bad.append("relative momentum corresponds to %.6f MeV, kinetic energy is %.6f MeV" % (got, want))
    for f in parts(e):
        pn = [0.0, 0.0, 0.0]
        for i in range(f["nn"]):
            q = math.sqrt(max(0.0, 2 * MN * f["nE"][i]))
            for k, c in enumerate(("nu", "nv", "nw")):
                pn[k] += q * f[c][i]
        d = [f["pre"][k] - f["post"][k] - pn[k] for k in range(3)]
        if not norm(d) <= 1e-6 * (1 + norm(f["pre"])):
            bad.append("%s: momentum before - after - neutrons = %s MeV/c (%d neutrons)" % (f["side"], ["%.4g" % x for x in d], f["nn"]))
        if f["dir"] is not None:
            q = norm(f["pre"])
            if q > 0 and any(abs(f["dir"][k] - f["pre"][k] / q) > 1e-6 for k in range(3)):
                bad.append("%s: direction cosines %s do not match momentum %s" % (f["side"], f["dir"], f["pre"]))
        if f["nn"] == 0 and f["post"] != f["pre"] and norm([a - b for a, b in zip(f["post"], f["pre"])]) > 1e-9:
            bad.append("%s: momentum changed without neutron emission" % f["side"])
    return bad


def o_boost(D, f):
    """C05 for one fragment; returns (problems, kepost_known)"""
    bad, known = [], False
    p = list(f["pre"])
    a = f["A"]
    nm = "%s Z=%d A=%d" % (f["side"], f["Z"], f["A"])
    try:
        for i in range(f["nn"]):
            M = D.M(f["Z"], a)
            vl = math.sqrt(2 * f["nE"][i] / MN); vc = math.sqrt(2 * f["cE"][i] / MN)
            lab = [vl * f[c][i] for c in ("nu", "nv", "nw")]
            cm = [vc * f[c][i] for c in ("cu", "cv", "cw")]
            # frame velocity: the emitter's, whose mass is taken before or after emission
            d = [lab[k] - cm[k] - p[k] / M for k in range(3)]
            if norm(d) > 1e-6 * max(vl, vc):
                bad.append("%s: neutron %d lab velocity differs from c.m. + fragment velocity by %.3g c" % (nm, i, norm(d)))
            p = [p[k] - MN * lab[k] for k in range(3)]
            a -= 1
        Mp = D.M(f["Z"], a)
    except KeyError:
        return ["%s: nucleus not in the mass table" % nm], known
    q2 = sum(x * x for x in f["post"])
    ke, kealt = q2 / 2 / Mp, q2 / 2 / D.M(f["Z"], f["A"])
    if abs(f["KEpost"] - ke) > 1e-6 * (1 + ke):
        if f["nn"] and abs(f["KEpost"] - kealt) <= 1e-6 * (1 + ke):
            known = True
        else:
            bad.append("%s: final kinetic energy %.6f, momentum gives %.6f" % (nm, f["KEpost"], ke))
    if "gc" in f:
        b = math.sqrt(q2) / Mp
        for i in range(f["ng"]):
            want = f["gc"][i] * math.sqrt(1 - b * b) / (1 - b * f["gcu"][i] if "gcu" in f else 1 - b * f["gu"][i])
            if abs(f["gE"][i] - want) > 1e-6 * want:
                bad.append("%s: photon %d lab energy %.6f, Doppler gives %.6f" % (nm, i, f["gE"][i], want))
    elif f.get("steps"):
        gs = [s[13] for s in f["steps"] if s[7] == s[1] and not s[12]]
        gc = cmgammas(D, f)
        if len(gs) == len(gc):
            for i, (x, y) in enumerate(zip(gs, gc)):
                if abs(x - y) > 1e-6 * (x + 1e-3):
                    bad.append("%s: photon %d of %.6f MeV is reported with %.6f MeV, Doppler gives %.6f" % (nm, i, x, f["gE"][i], x * f["gE"][i] / y if y else -1))
    return bad, known


LIM = {"n": 10, "g": 50, "pre": 3}


def o_wellformed(e, za, einc, time):
    """C06"""
    bad = []
    def chk(cond, msg):
        if not cond:
            bad.append(msg)
    for s in ("L", "H", "Lpre", "Hpre", "Lpost", "Hpost", "Ldir", "Hdir"):
        for x in e[s]:
            chk(finite(x), "%s has non-finite value %r" % (s, x))
    if bad:
        return bad
    for s in "LH":
        A, Z, KE, KEp, U, J, P, nn, ng = e[s]
        chk(60 <= A <= 200 and 20 <= Z <= 80, "%s Z=%g A=%g" % (s, Z, A))
        chk(KE > 0 and KEp > 0 and U > 0, "%s KE=%g KEpost=%g U=%g" % (s, KE, KEp, U))
        chk(J >= 0 and (2 * J) % 2 == (A % 2) and J < 50, "%s spin %g for A=%g" % (s, J, A))
        chk(P in (1, -1), "%s parity %g" % (s, P))
        chk(0 <= nn <= LIM["n"] and 0 <= ng <= LIM["g"] and nn == int(nn) and ng == int(ng), "%s multiplicities %g %g" % (s, nn, ng))
        chk(abs(norm(e[s + "dir"]) - 1) < 1e-6, "%s direction is not a unit vector: %s" % (s, e[s + "dir"]))
        chk(norm(e[s + "pre"]) > 0 and norm(e[s + "post"]) > 0, "%s momentum vanishes" % s)
    chk(0 <= e["npre"] <= LIM["pre"], "pre-fission multiplicity %d" % e["npre"])
    for pfx, n, ek in (("n", e["nn"], "nE"), ("c", e["nn"], "cE"), ("g", e["ng"], "gE"), ("p", e["npre"], "pE")):
        for i in range(n):
            x = e[ek][i]
            chk(finite(x) and x > 0 and x < 60, "%s[%d] energy %r" % (ek, i, x))
            d = [e[pfx + c][i] for c in "uvw"]
            chk(all(finite(y) for y in d) and abs(norm(d) - 1) < 1e-6, "%s[%d] direction %s" % (pfx, i, d))
    for k in ("nt", "gt"):
        for x in e[k]:
            chk(finite(x) and x >= time - 1e-30, "%s time %r before %g" % (k, x, time))
    chk(all(x == -1 for x in e.get("oob", [])), "out-of-range queries answered %s" % e.get("oob"))
    if "za" in e:
        chk(e["za"] == za and e["einc"] == einc, "event echoes %s %s instead of %s %s" % (e["za"], e["einc"], za, einc))
    return bad
