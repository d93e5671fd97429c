#!/usr/bin/env python3
"""Synthetic discreteLevels.dat generator.

data/discreteLevels.dat is not part of this copy of CGMF, so no full event can be
simulated with the shipped data.  This module writes level files in the format that
the library reads, from several deterministic recipes ("profiles").  Everything is a
function of (profile, seed): the same call always writes the same bytes.
"""
import hashlib, os, struct

PROFILES = ("std", "noic", "isomer", "highic", "sparse", "dense", "ladder", "promptonly")


class Rng:
    """tiny splitmix generator, so that files do not depend on the python version"""

    def __init__(self, *key):
        h = hashlib.sha256(repr(key).encode()).digest()
        self.s = struct.unpack("<Q", h[:8])[0]

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return z ^ (z >> 31)

    def f(self):
        return (self.u64() >> 11) / float(1 << 53)

    def rng(self, a, b):
        return a + (b - a) * self.f()

    def i(self, n):
        return self.u64() % n


def read_masses(repo):
    """nuclides of the mass table (same fixed columns the library uses)"""
    out = {}
    with open(os.path.join(repo, "data", "masses.dat")) as f:
        for line in f:
            if line.startswith("#"):
                continue
            s = line.rstrip("\n").rstrip("\r")
            while s.strip():
                try:
                    out[int(s[0:7])] = float(s[7:18])
                except ValueError:
                    break
                s = s[18:]
    return out


def nuclides(repo):
    m = read_masses(repo)
    return sorted(z for z in m if 24 <= z // 1000 <= 72 and 56 <= z % 1000 <= 190)


def scheme(zaid, profile, seed):
    """list of levels: (E, spin, parity, halflife, [(final, branch, icc)...])"""
    r = Rng("lev", profile, seed, zaid)
    Z, A = zaid // 1000, zaid % 1000
    N = A - Z
    half = 0.5 if A % 2 else 0.0
    if Z % 2 == 0 and N % 2 == 0:
        gs, gp = 0.0, 1
    elif A % 2:
        gs, gp = half + r.i(4), 1 if r.f() < 0.5 else -1
    else:
        gs, gp = float(1 + r.i(4)), 1 if r.f() < 0.6 else -1
    nlev = {"std": 6 + r.i(14), "noic": 6 + r.i(14), "isomer": 8 + r.i(14), "highic": 6 + r.i(14),
            "sparse": 1 + r.i(3), "dense": 60 + r.i(80), "ladder": 26, "promptonly": 6 + r.i(14),
            "limits": 197 + r.i(3), "unassigned": 6 + r.i(14)}[profile]
    if profile in ("std", "noic", "isomer") and r.f() < 0.12:
        nlev = 1 + r.i(2)
    levels = [(0.0, gs, gp, -1.0, [])]
    # spacing: closed shells are stiff
    e = 0.0
    base = {"dense": 0.03, "ladder": 0.11, "limits": 0.02}.get(profile, 0.12 if A % 2 else (0.09 if Z % 2 else 0.45))
    if Z in (28, 50) or N in (50, 82):
        base *= 2.0
    for k in range(1, nlev):
        e += base * r.rng(0.35, 1.4)
        base = max(0.05 if profile not in ("dense", "limits") else 0.02, base * 0.93)
        if profile == "ladder":
            spin, par = gs + 2 * 0 + (k if half == 0 else k), gp
            spin = gs + k
        else:
            if k == 1 and half == 0.0 and Z % 2 == 0:
                spin, par = 2.0, 1
            else:
                spin = half + r.i(7 if half else 8)
                par = 1 if r.f() < 0.55 else -1
        if profile == "unassigned":                # spin or parity not known
            if r.f() < 0.4: spin = -1.0
            if r.f() < 0.4: par = 0
        # half-life
        hl = -1.0
        x = r.f()
        if profile in ("std", "noic", "highic", "limits", "unassigned"):
            if x < 0.30:
                hl = 10 ** r.rng(-12.5, -9.5)
            elif x < 0.37:
                hl = 10 ** r.rng(-9.0, -6.0)
            elif x < 0.40:
                hl = 10 ** r.rng(-6.0, 1.0)
        elif profile == "isomer":
            hl = 10 ** r.rng(-11.0, 2.0) if x < 0.8 else -1.0
        # gammas
        gam = []
        if profile == "ladder":
            gam = [(k - 1, 1.0, 0.0)]
        elif not (profile in ("std", "isomer") and r.f() < 0.08):   # some levels without gamma data
            ng = 1 + r.i(min(k, 4)) if profile not in ("dense", "limits") else 1 + r.i(min(k, 12 if profile == "dense" else (90 if r.f() < 0.05 else 6)))
            fs = sorted({r.i(k) for _ in range(ng)})
            ws = [r.rng(0.05, 1.0) for _ in fs]
            if profile == "isomer" and r.f() < 0.1:
                ws = [0.0 for _ in fs]                             # unnormalised / zero branchings
            tot = sum(ws) or 1.0
            scale = r.rng(0.5, 1.4) if r.f() < 0.15 else 1.0       # branchings need not sum to 1
            for f_, w in zip(fs, ws):
                if profile == "highic":
                    ic = 10 ** r.rng(-1, 1.2)
                elif profile in ("noic", "promptonly", "dense", "sparse"):
                    ic = 0.0
                else:
                    ic = 10 ** r.rng(-5, -0.3) if r.f() < 0.6 else 0.0
                gam.append((f_, w / tot * scale, ic))
        levels.append((round(e, 6), spin, par, hl, gam))
    return levels


def table(repo, profile="std", seed=0):
    nucs = nuclides(repo)
    if profile == "actinide":        # the standard file plus the fissioning nuclei
        nucs += sorted(z for z in read_masses(repo) if 90 <= z // 1000 <= 98 and 225 <= z % 1000 <= 256)
        profile = "std"
    out = {}
    for z in nucs:
        if profile == "sparse" and Rng("skip", seed, z).f() < 0.25:
            continue
        if profile == "limits" and not (28 <= z // 1000 <= 68 and abs(z // 1000 / (z % 1000) - 0.4) < 0.03 and Rng("skip", seed, z).f() < 0.5):
            continue
        if profile == "dense" and not (28 <= z // 1000 <= 68 and abs(z // 1000 / (z % 1000) - 0.4) < 0.03 and Rng("skip", seed, z).f() < 0.6):
            continue
        # the gamma data as the file rounds them
        lv = []
        for (e, s, p, hl, g) in scheme(z, profile, seed):
            lv.append((float("%10.6f" % e), s, p, float("%13.3e" % hl),
                       [(f, float("%9.6f" % b), float("%10.3e" % ic)) for f, b, ic in g]))
        out[z] = lv
    return out


def write(path, tab):
    with open(path, "w") as o:
        o.write("# synthetic discrete levels\n")
        for z in sorted(tab):
            lv = tab[z]
            o.write("%6s%6d%5d\n" % ("", z, len(lv)))
            for (e, s, p, hl, g) in lv:
                o.write("%10.6f%5.1f%3d%13.3e%3d\n" % (e, s, p, hl, len(g)))
                for f, b, ic in g:
                    o.write("%3d%9.6f%10.3e\n" % (f, b, ic))


if __name__ == "__main__":
    import sys
    write(sys.argv[1], table(sys.argv[4] if len(sys.argv) > 4 else "/repo",
                             sys.argv[2] if len(sys.argv) > 2 else "std",
                             int(sys.argv[3]) if len(sys.argv) > 3 else 0))
