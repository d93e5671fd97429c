"""Independent evaluation of the fragment models from the data files: mass yields, charge
distribution (Wahl), kinetic energies, spins, excitation-energy sharing, anisotropies."""
import math
import numpy as np
from nuc import AMU, HBARC
from vlib import SF

MNU, MPU = 1.00866491578, 1.00727646688   # neutron and proton masses in amu
VIOLA = {92: (-2.43783800e-03, 4.32954561), 93: (-2.47262338e-03, 4.46218351),
         94: (-1.78668219e-03, 3.55865245), 98: (-3.44312133e-03, 6.20846742)}
FIXED_RT = {92234: 1.2, 94238: 1.2, 94244: 1.2}
DZ_SF = {94238: 6, 94240: 6, 94242: 6, 94244: 6, 98252: 6, 98254: 6}
NA = 300

# Wahl, LA-13928, tables 2 and 3 (with the release's Fz): par: (low-energy coefficients, high-energy coefficients)
WAHL = {
    "sigz140": ((0.566, 0, .0064, .0109, 0), (0.542, 1.310, .033, 0, -.005)),
    "delz140": ((-.487, 0, .0180, 0, -.00203), (-.428, 0, 0, .164, -.0116)),
    "Fz140": ((1.207, 0, -.0420, 0, .0022), (1.0, 0, 0, 0, 0)),
    "Fn140": ((1.076, 0, 0, 0, 0), (1.0, 0, 0, 0, 0)),
    "sigzSL": ((-.0038, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "delzSL": ((-.0080, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FzSL": ((.0030, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FnSL": ((-.0006, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "SL50": ((.191, 0, -.0076, 0, 0), (.191, 0, -.0076, 0, 0)),
    "sigz50": ((.356, .060, 0, 0, 0), (.542, 1.310, .033, 0, -.005)),
    "delzmax": ((.699, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
    "sigzSLW": ((-.045, .0094, 0, 0, 0), (0, 0, 0, 0, 0)),
    "delzSLW": ((0, -.0045, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FzSLW": ((.159, -.028, 0, 0, 0), (0, 0, 0, 0, 0)),
    "FnSLW": ((.039, 0, 0, 0, 0), (0, 0, 0, 0, 0)),
}


def eq17(c, Z, A, PE):
    return c[0] + c[1] * (Z - 92) + c[2] * (A - 236) + c[3] * (PE - 6.551) + c[4] * (A - 236) ** 2


def eq19(c, Z, A, PE):
    p1 = c[0] + c[2] * (Z - 92)
    p2 = c[1] + c[3] * (Z - 92)
    return p1 + (p2 - p1) * (1 - math.exp(-c[4] * PE))


def wahl(Z, A, PE):
    """per fragment mass: most probable charge, width, odd-even factors"""
    p = {}
    for k, (lo, hi) in WAHL.items():
        if PE <= 8:
            p[k] = eq17(lo, Z, A, PE)
        elif PE < 20:
            f = (PE - 8) / 12.
            h = eq17(hi, Z, A, 20.) if k == "FnSL" else eq19(hi, Z, A, 20.)
            p[k] = (1 - f) * eq17(lo, Z, A, 8.) + f * h
        else:
            p[k] = eq19(hi, Z, A, PE)
    F1 = min(1., max(0., (250. - A) / 14.))
    Am = F1 * (50. * A / Z - p["delzmax"] / p["SL50"]) + (1 - F1) * (50. - p["delzmax"]) * A / Z
    B1, B2 = 70., 77. + .036 * (A - 236.)
    Ba, Bb = A - Am, Am
    B4 = (p["delzmax"] - p["delz140"] + Am * p["SL50"] + 140. * p["delzSL"]) / (p["SL50"] + p["delzSL"])
    B3, B5, B6 = A - B4, A - B2, A - B1
    if p["sigz50"] <= 0:
        p["sigz50"] = p["sigz140"]
    s5 = p["sigz140"] + p["sigzSL"] * (B5 - 140)
    d5 = p["delz140"] + p["delzSL"] * (B5 - 140)
    out = {}
    for a in range(20, A - 19):
        c = A - a
        d = s = fz = fn = 0.0
        if B2 <= a <= B3:
            d = -(p["delz140"] + p["delzSL"] * (c - 140)); s = p["sigz140"] + p["sigzSL"] * (c - 140)
            fz = p["Fz140"] + p["FzSL"] * (c - 140); fn = p["Fn140"] + p["FnSL"] * (c - 140)
        elif B4 <= a <= B5:
            d = p["delz140"] + p["delzSL"] * (a - 140); s = p["sigz140"] + p["sigzSL"] * (a - 140)
            fz = p["Fz140"] + p["FzSL"] * (a - 140); fn = p["Fn140"] + p["FnSL"] * (a - 140)
        if B3 <= a <= Ba:
            d, s, fz, fn = -p["delzmax"] - p["SL50"] * (a - Ba), p["sigz50"], 1., 1.
        elif Ba <= a <= Bb:
            d, s, fz, fn = -p["delzmax"] + (a - Ba) * 2 * p["delzmax"] / (Bb - Ba), p["sigz140"] - p["sigzSL"] * (140 - Bb), 1., 1.
        elif Bb <= a <= B4:
            d, s, fz, fn = p["delzmax"] - p["SL50"] * (a - Bb), p["sigz50"], 1., 1.
        if B1 <= a <= B2:
            d, s, fz, fn = -d5 + p["delzSLW"] * (c - B5), s5 + p["sigzSLW"] * (B2 - a), p["Fz140"] + p["FzSLW"] * (B2 - a), p["Fn140"] + p["FnSLW"] * (B2 - a)
        elif B5 <= a <= B6:
            d, s, fz, fn = d5 - p["delzSLW"] * (a - B5), s5 + p["sigzSLW"] * (a - B5), p["Fz140"] + p["FzSLW"] * (a - B5), p["Fn140"] + p["FnSLW"] * (a - B5)
        if a <= B1:
            d, s, fz, fn = -d5, s5, p["Fz140"], p["Fn140"]
        elif a >= B6:
            d, s, fz, fn = d5, s5, p["Fz140"], p["Fn140"]
        out[a] = (Z / A * a + d, s, fz, fn)
    return out


def zdist(w, a, dz):
    """Y(Z|A) of one mass from its Wahl parameters: {Z: probability}"""
    zp, s, fz, fn = w[a]
    i0 = int(math.floor(zp + .5))
    y = {}
    for z in range(i0 - dz, i0 + dz + 1):
        if s > 0:
            oe = (fz if z % 2 == 0 else 1 / fz) * (fn if (a - z) % 2 == 0 else 1 / fn)
            q = math.sqrt(2.) * s
            y[z] = oe * .5 * (math.erf((z - zp + .5) / q) - math.erf((z - zp - .5) / q))
        else:
            y[z] = 1. if z == i0 else 0.
    t = sum(y.values())
    return {z: v / t for z, v in y.items()} if t else y


class Models:
    def __init__(self, D):
        self.D = D
        self.ya_rows, self.tke_rows, self.spin = {}, {}, {}
        for l in D.rows("yamodel.dat"):
            w = l.split("#")[0].split()
            if len(w) >= 15:
                self.ya_rows[int(w[0])] = [float(x) for x in w[1:15]]
        for l in D.rows("tkemodel.dat"):
            w = l.split()
            if len(w) == 27:
                self.tke_rows[int(w[0])] = [float(x) for x in w[1:]]
        for l in D.rows("spinscalingmodel.dat"):
            w = l.split()
            self.spin[int(w[0])] = (float(w[1]), float(w[2]))
        self.grid, self.temp = None, {}
        for l in D.rows("temperatures.dat"):
            w = l.split()
            if self.grid is None:
                self.grid = [float(x) for x in w]
            else:
                self.temp[int(w[0])] = [float(x) for x in w[1:33]]
        self.ldp = {}
        for l in D.rows("ldp.dat"):
            w = l.split()
            self.ldp[int(w[0])] = [float(x) for x in w[1:33]]
        self.beta2 = {}
        for l in D.rows("deformations.dat"):
            Z, A = int(l[:4]), int(l[4:8])
            if Z > 99:
                break
            s = l[44:]
            if A <= 199 and len(s) > 6 and s[6] != " ":
                self.beta2[1000 * Z + A] = float(s.split()[0])
        self.rta = {}
        for l in D.rows("rta.dat"):
            w = l.split()
            self.rta[abs(int(w[0]))] = {int(w[1]) + i: float(x) for i, x in enumerate(w[3:])}
        self.aniso, self.agrid = {}, None
        toks = []
        for l in D.rows("anisotropy.dat"):
            toks += l.split()
        lo, hi, st = (float(x) for x in toks[:3])
        n = int(round((hi - lo) / st)) + 1
        self.agrid = (lo, st, n)
        i = 3
        while i < len(toks):
            self.aniso[int(toks[i])] = [float(x) for x in toks[i + 1:i + 1 + n]]
            i += 1 + n
        self.pre = {}
        for l in D.rows("preeq-params.dat"):
            w = l.split()
            if len(w) == 5:
                self.pre[int(w[0])] = [float(x) for x in w[1:]]
        r = [[float(x) for x in l.split()] for l in D.rows("preeq-scattering-params.dat")]
        r = [x for x in r if len(x) == 6]
        self.scatter = (r[:4], r[4:8])
        self._w = {}

    # -- mass yields
    def modes(self, cn0, sf, n, e):
        """weights, means, widths of the three modes; also the width as the release evaluates it"""
        row = None
        shift = 0
        if sf:
            row = self.ya_rows[-cn0]
        else:
            row = self.ya_rows.get(cn0 - n) if n < 4 else None
            if row is None:
                row, shift = self.ya_rows[cn0], -n
        A = cn0 % 1000 - n
        w1 = 1 / (1 + math.exp((e - row[0]) / row[1]))
        w2 = 1 / (1 + math.exp((e - row[6]) / row[7]))
        m1, m2 = row[2] + row[3] * e + shift, row[8] + row[9] * e + shift
        s1, s2 = row[4] + row[5] * e, row[10] + row[11] * e
        s0 = row[12] + row[13] * e
        return A, [(2 - 2 * w1 - 2 * w2, A / 2., s0), (w1, m1, s1), (w2, m2, s2)], row[12] + row[5] * e

    def ya(self, cn0, sf, n, e, release_width=False):
        A, m, s0r = self.modes(cn0, sf, n, e)
        (w0, m0, s0), (w1, m1, s1), (w2, m2, s2) = m
        if release_width:
            s0 = s0r
        a = np.arange(NA, dtype=float)
        a = np.where(a >= A // 2, a, A - a)
        g = lambda w, mu, s: w / (math.sqrt(2 * math.pi) * s) * np.exp(-.5 * ((a - mu) / s) ** 2)
        y = g(w0, m0, s0) + g(w1, m1, s1) + g(w1, A - m1, s1) + g(w2, m2, s2) + g(w2, A - m2, s2)
        y[y <= 1e-5] = 0.
        y[A + 1:] = 0.
        return A, y / y.sum()

    # -- kinetic energies
    def tke(self, cn0, sf, n, e, A, y):
        """mean and width of the total kinetic energy per fragment mass"""
        row = self.tke_rows.get(-cn0 if sf else cn0 - n) if (sf or n < 4) else None
        if row is None:
            z = (cn0 - n) // 1000
            x = z * z / A ** (1 / 3.)
            ia, ib = VIOLA.get(z, (0., 1.))
            mean = (.1189 * x + 7.3) * (ia * x + ib) - .25 * e
            row = self.tke_rows[cn0]
        else:
            t0, e0, b, d = row[:4]
            mean = t0 + b * e if e <= e0 else t0 + (b - d) * e0 + d * e
        av, sg = np.full(NA, 140.), np.full(NA, 7.)
        for arr, c in ((av, row[4:15]), (sg, row[15:26])):
            for a in range((A + 1) // 2, int(c[1]) + 1):
                v = sum(c[2 + j] * (a - c[0]) ** j for j in range(9))
                arr[a] = v
                arr[A - a] = v
        return mean, av * (mean / float((av * y).sum())), sg

    # -- charges
    def wahl(self, Z, A0, PE):
        k = (Z, A0, round(PE, 9))
        if k not in self._w:
            if len(self._w) > 2000:
                self._w.clear()
            self._w[k] = wahl(Z, A0, PE)
        return self._w[k]

    def zlight(self, Z, A0, PE, al, Ac, dz):
        """probability of the light fragment's charge given its mass (either fragment may be the sampled one)"""
        w = self.wahl(Z, A0, PE)
        out = {}
        if 2 * al == Ac:
            return zdist(w, al, dz)
        for z, p in zdist(w, al, dz).items():
            out[z] = out.get(z, 0.) + .5 * p
        for z, p in zdist(w, Ac - al, dz).items():
            out[Z - z] = out.get(Z - z, 0.) + .5 * p
        return out

    # -- data lookups
    def T(self, za, u):
        t = self.temp.get(za)
        return float(np.interp(u, self.grid, t)) if t else 5.0

    def a(self, za, u):
        t = self.ldp.get(za)
        return float(np.interp(u, self.grid, t)) if t else 5.0

    def beta(self, za):
        return self.beta2.get(za, 0.2)

    # -- spin
    def alpha(self, cn, sf, e):
        a0, sl = self.spin.get(-cn if sf else cn, (1.3, 0.0) if sf else (1.5, 0.071))
        return a0 + sl * e if e > 0 else a0

    def b2(self, za, u, alpha):
        A = za % 1000
        b = self.beta(za)
        I = .4 * A ** (5 / 3.) * 1.44 * .5 * (MNU + MPU) * AMU * (1 + .31 * b + .44 * b * b) * alpha
        return I * self.T(za, u) / HBARC ** 2

    def spin_dist(self, za, u, alpha, n=50):
        b2 = self.b2(za, u, alpha)
        o = .5 if za % 2 else 0.
        j = np.arange(n) + o
        p = (2 * j + 1) * np.exp(-j * (j + 1) / (2 * b2))
        return j, p / p.sum()

    # -- sharing
    def share(self, zt, zl, zh, txe):
        rt = FIXED_RT.get(zt)
        if rt is None:
            rt = self.rta[zt].get(zh % 1000, 1.0)      # outside the table: equal temperatures
        al, ah = self.a(zl, txe / 2), self.a(zh, txe / 2)
        n = 0
        while True:
            eh = ah / (al * rt * rt + ah) * txe
            el = txe - eh
            a0 = al
            al, ah = self.a(zl, el), self.a(zh, eh)
            n += 1
            if abs(al - a0) <= .01 or n > 60:
                return el, eh, n, rt, abs(abs(al - a0) - .01) < 1e-9

    # -- anisotropy
    def anisotropy(self, zt, e):
        if e == 0 or zt not in self.aniso:
            return 1.0
        lo, st, n = self.agrid
        i = int(math.floor((e - lo) / st + .5))
        return self.aniso[zt][min(i, n - 1)]

    def preeq(self, zt, e):
        a0, e0, s, f0 = self.pre[zt]
        return max(0., 1 / (1 + math.exp((a0 - e) / e0)) + s * e + f0)
