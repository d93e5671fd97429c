"""Independent readers of the data files and the physics the oracles need."""
import math, os
AMU = 931.494013
MN = 1.00866491578 * AMU
HBARC = 197.3269602


class Data:
    def __init__(self, repo="/repo"):
        self.dir = repo + "/data/"
        import levels
        self.mass = levels.read_masses(repo)
    def me(self, Z, A):
        return self.mass[1000 * Z + A]
    def M(self, Z, A):
        return A * AMU + self.me(Z, A)
    def Sn(self, Z, A):
        return self.me(Z, A - 1) + (MN - AMU) - self.me(Z, A)
    def rows(self, name):
        for l in open(self.dir + name, errors="replace"):
            l = l.rstrip("\n")
            if l.strip() and not l.startswith("#"):
                yield l


def compound(za, einc):
    """Z, A of the nucleus formed; spontaneous fission is einc == 0"""
    Z, A = za // 1000, za % 1000
    return Z, A + (1 if einc > 0 else 0)


class MultiChance:
    """multichancefission.dat: blocks 'zaid nE nmax', barriers, then rows E P0..Pn"""
    def __init__(self, D):
        self.D = D
        self.tab = {}
        toks = []
        for l in D.rows("multichancefission.dat"):
            toks.append(l.split())
        i = 0
        while i < len(toks):
            if len(toks[i]) != 3:
                i += 1
                continue
            za, ne, nn = (int(x) for x in toks[i])
            bar = [float(x) for x in toks[i + 1]]
            rows = [[float(x) for x in r] for r in toks[i + 2:i + 2 + ne]]
            self.tab[za] = (bar[:nn + 1], rows)
            i += 2 + ne

    def residual(self, za, E, n):
        """largest excitation energy left after n neutrons"""
        Z, A = za // 1000, za % 1000 + 1
        x = E + self.D.Sn(Z, A)
        for k in range(n):
            x -= self.D.Sn(Z, A - k)
        return x

    def table_probs(self, za, E):
        bar, rows = self.tab[za]
        for i, r in enumerate(rows):
            if E <= r[0]:
                if i == 0:
                    p = r[1:]
                else:
                    q = rows[i - 1]
                    t = (E - q[0]) / (r[0] - q[0])
                    p = [a + t * (b - a) for a, b in zip(q[1:], r[1:])]
                break
        else:
            return None
        out = []
        for x in p:
            if x <= 0:
                break
            out.append(x)
        s = sum(out)
        return [x / s for x in out]

    def probs(self, za, E):
        """probability of emitting n neutrons before fission (barriers applied)"""
        p = self.table_probs(za, E)
        bar, _ = self.tab[za]
        out = [0.0] * 4
        for n, x in enumerate(p):
            while n > 0 and self.residual(za, E, n) < bar[n]:
                n -= 1
            out[n] += x
        return out

    def thresholds(self, za):
        """incident energies at which a chance opens"""
        bar, _ = self.tab[za]
        return [bar[n] - self.residual(za, 0.0, n) for n in range(1, len(bar))]
