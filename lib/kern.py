"""Independent numerical references for the nuclear-model kernels (C24)."""
import math
import numpy as np
from scipy import special

AMU, HC2 = 931.4943335, (6.58212196e-22 * 2.99792458e23) ** 2
CSPO = 2.04553


def kd_neutron(Z, A, e):
    """Koning & Delaroche, Nucl. Phys. A713 (2003) 231, global neutron potential"""
    a13 = A ** (1 / 3.)
    asy = (A - 2. * Z) / A
    ef = -11.2814 + .02646 * A
    x = e - ef
    v1, v2, v3, v4 = 59.30 - 21. * asy - .024 * A, .007228 - 1.48e-6 * A, 1.994e-5 - 2e-8 * A, 7e-9
    d1, d2, d3 = 16. - 16. * asy, .0180 + .003802 / (1 + math.exp((A - 156.) / 8)), 11.5
    w1, w2 = 12.195 + .0167 * A, 73.55 + .0795 * A
    p = {"V": v1 * (1 - v2 * x + v3 * x ** 2 - v4 * x ** 3), "Wv": w1 * x * x / (x * x + w2 * w2), "Wd": d1 * x * x / (x * x + d3 * d3) * math.exp(-d2 * x),
         "Vso": (5.922 + .0030 * A) * math.exp(-.0040 * x), "Wso": -3.1 * x * x / (x * x + 160. ** 2)}
    p["R"], p["a"] = (1.3039 - .4054 / a13) * a13, .6778 - 1.487e-4 * A
    p["Rd"], p["ad"] = (1.3424 - .01585 * a13) * a13, .5446 - 1.656e-4 * A
    p["Rso"], p["aso"] = (1.1854 - .647 / a13) * a13, .59
    return p


def transmission(Z, A, e, mu, lmax, h=0.02):
    """T[l][0] for j=l+1/2, T[l][1] for j=l-1/2: radial equation solved on a fine mesh"""
    p = kd_neutron(Z, A, e)
    n = int(24. / h)
    r = h * np.arange(1, n + 2)
    ws = lambda R, a: 1 / (1 + np.exp((r - R) / a))
    f, g, s = ws(p["R"], p["a"]), ws(p["Rd"], p["ad"]), ws(p["Rso"], p["aso"])
    c = 2 * mu * AMU / HC2
    U = c * ((p["V"] + 1j * p["Wv"]) * f + 1j * p["Wd"] * 4 * g * (1 - g))
    S = c * CSPO * (p["Vso"] + 1j * p["Wso"]) * s * (1 - s) / (p["aso"] * r)
    k2 = c * e
    ls, js = [], []
    for l in range(lmax + 1):
        for j in (l + .5, l - .5):
            if j > 0:
                ls.append(l); js.append(j)
    L, J = np.array(ls, float), np.array(js)
    so = J * (J + 1) - L * (L + 1) - .75
    Q = (L * (L + 1))[None, :] / (r * r)[:, None] - k2 - U[:, None] - so[None, :] * S[:, None]
    w = h * h / 12
    y0 = np.zeros(len(ls), complex)
    y1 = np.ones(len(ls), complex) * 1e-30
    q0y0 = np.where(L == 1, 2. / h ** 2 * y1 , 0)      # lim Q y at the origin: y ~ r^(l+1)
    z0, z1 = y0 - w * q0y0, (1 - w * Q[0]) * y1
    for i in range(1, n + 1):
        z2 = 2 * z1 - z0 + h * h * Q[i - 1] * y1
        z0, z1 = z1, z2
        y0, y1 = y1, z2 / (1 - w * Q[i])
        if i % 100 == 0:
            m = np.abs(y1); z0, z1, y0, y1 = z0 / m, z1 / m, y0 / m, y1 / m
    k = math.sqrt(k2)
    ra, rb = k * r[n - 1], k * r[n]
    l = np.array(ls)
    F = lambda x: x * special.spherical_jn(l, x)
    G = lambda x: -x * special.spherical_yn(l, x)
    Ha, Hb = G(ra) + 1j * F(ra), G(rb) + 1j * F(rb)
    R = y0 / y1
    Sm = (np.conj(Ha) - R * np.conj(Hb)) / (Ha - R * Hb)
    T = 1 - np.abs(Sm) ** 2
    out = np.zeros((lmax + 1, 2))
    for q in range(len(ls)):
        out[ls[q], 0 if js[q] > ls[q] else 1] = T[q]
    return out


class LD:
    """Gilbert-Cameron level density with Ignatyuk shell damping, from its parameters"""
    def __init__(s, A, ldp):
        s.A = float(A)
        s.em, s.dw, s.T, s.E0, s.a, s.d, s.s0 = ldp
    def shell(s, u):
        g = .31 * s.A ** (-1 / 3.)
        return s.a * (1 + s.dw * (1 - math.exp(-g * u)) / u) if u > 0 else s.a
    def par(s, e):
        if s.em == 0: return s.a
        return s.shell(max(e, s.em) - s.d)
    def sig(s, e):
        u = max(e - s.d, .5)
        return max(math.sqrt(.006945 * math.sqrt(u / s.par(e)) * s.A ** (5 / 3.)), s.s0)
    def ct(s, e): return math.exp((e - s.E0) / s.T) / s.T
    def fg(s, u, a, sg): return math.exp(2 * math.sqrt(a * u)) / (12 * math.sqrt(2) * a ** .25 * u ** 1.25 * sg) if u > 0 else 0.
    def rho(s, e):
        if s.em == 0 or e < s.em: return s.ct(e)
        return s.fg(e - s.d, s.par(e), s.sig(e))
    def spin(s, j, e):
        sg = s.sig(e) if s.em != 0 else s.s0
        r = (j + .5) / sg ** 2 * math.exp(-(j + .5) ** 2 / (2 * sg * sg))
        return r if r >= 1e-10 else 0.


def gdr(Z, A, beta):
    a3 = A ** (-1 / 3.)
    if beta == 0:
        e = 49.336 * A ** -.2409
        o = [("E1", e, .3 * e, 10.6 * A / (.3 * e))]
    else:
        e0, e1 = 50 * A ** -.232 * math.exp(-.946 * beta), 50 * A ** -.232
        w0, w1 = (.282 - .263 * beta) * e0, (.35 - .14 * beta) * e1
        o = [("E1", e0, w0, 3.48 * A / w0), ("E1", e1, w1, 8.26 * A / w1)]
    r = sum(gl(7., x[1:], 1., 0.) for x in o)
    m = (41 * a3, 4., 1.)
    o.append(("M1",) + m[:2] + (17.01 * A ** -.878 * r / sl(1, 7., m),))
    e, w = 63 * a3, 6.11 - .012 * A
    o.append(("E2", e, w, 1.5e-4 * Z * Z * e * e * a3 / w))
    return o


def sl(l, eg, g):
    E, W, S = g
    return 26e-8 / (2 * l + 1) * S * W * eg ** (2 - 2 * l) * (eg * W) / ((E * E - eg * eg) ** 2 + (eg * W) ** 2)


def gl(eg, g, a, ex):
    E, W, S = g
    t2 = max(ex, 0.) / a
    Wt = W * (eg * eg + 4 * math.pi ** 2 * t2) / E ** 2
    return 26e-8 / 3 * S * W * (eg * Wt / ((E * E - eg * eg) ** 2 + (eg * Wt) ** 2) + .7 * W * 4 * math.pi ** 2 * t2 / E ** 5)


def tgamma(G, eg, a, ex):
    """photon transmission coefficients: E1 (generalised Lorentzian), E1 standard, M1, E2"""
    n = 2 * math.pi * 3.14035
    return [n * eg ** 3 * sum(gl(eg, x[1:], a, ex) for x in G if x[0] == "E1"), n * eg ** 3 * sum(sl(1, eg, x[1:]) for x in G if x[0] == "E1"),
            n * eg ** 3 * sum(sl(1, eg, x[1:]) for x in G if x[0] == "M1"), n * eg ** 5 * sum(sl(2, eg, x[1:]) for x in G if x[0] == "E2")]


def hauser(x, sn):
    """decay probabilities of the top state of a k_decay record (sn: neutron separation energy): (pop0, lpop0, pop1, lpop1); None if nothing can be reached"""
    MJ = 50
    n0 = x["n0"]
    L0 = LD(n0["A"], n0["ldp"])
    lev = np.array(n0["lev"]).reshape(-1, 3)
    half0 = .5 if (2 * lev[0, 1]) % 2 == 1 else 0.
    ini = np.array(x["ini"]).reshape(-1, 2)
    jdx, par = np.argwhere(ini > 0)[0]
    J, P = jdx + half0, 1 if par == 0 else -1
    G = gdr(n0["Z"], n0["A"], 0.)
    U = n0["ex"][0]
    p0 = np.zeros((n0["ntotal"], MJ, 2)); l0 = np.zeros(len(lev))
    js = np.arange(MJ) + half0
    E1 = (np.abs(js - J) <= 1) & (js + J >= 1)
    E2 = (np.abs(js - J) <= 2) & (js + J >= 2)
    E1[js + J == 0] = False
    same, opp = (0, 1) if P > 0 else (1, 0)
    for k in range(1, n0["ncont"]):
        eg = U - n0["ex"][k]
        t = tgamma(G, eg, n0["ldp"][4], sn - eg if eg <= sn else 0.)
        e = n0["ex"][k]
        d = L0.rho(e) * .5 * np.array([L0.spin(j, e) for j in js]) * n0["bw"][k]
        p0[k, :, opp] += t[0] * d * E1
        p0[k, :, same] += t[2] * d * E1 + t[3] * d * E2
    for i, (e, s, p) in enumerate(lev):
        t = tgamma(G, U - e, L0.par(e), e)
        if J == 0 and s < 1 and (s == 0): continue
        if abs(J - s) <= 1 and J + s >= 1:
            if p * P < 0: l0[i] += t[0]
            else: l0[i] += t[2]
        if abs(J - s) <= 2 and J + s >= 2 and p * P > 0: l0[i] += t[3]
    p1 = l1 = None
    if x["open"]:
        n1 = x["n1"]
        L1 = LD(n1["A"], n1["ldp"])
        lv1 = np.array(n1["lev"]).reshape(-1, 3)
        half1 = .5 if (2 * lv1[0, 1]) % 2 == 1 else 0.
        j1 = np.arange(MJ) + half1
        p1 = np.zeros((n1["ntotal"], MJ, 2)); l1 = np.zeros(len(lv1))
        for k in range(n1["ncont"]):
            ec, lm = x["tc"][k][0], x["tc"][k][1]
            if ec <= 0: continue
            T = np.array(x["tc"][k][2:]).reshape(-1, 2)
            e = n1["ex"][k]
            d = L1.rho(e) * .5 * np.array([L1.spin(j, e) for j in j1]) * n1["bw"][k]
            for l in range(len(T)):
                for q, jp in ((0, l + .5), (1, l - .5)):
                    if jp < 0: continue
                    m = (j1 >= abs(J - jp) - 1e-9) & (j1 <= J + jp + 1e-9)
                    p1[k, :, 0 if P * (-1) ** l > 0 else 1] += T[l, q] * d * m
        for i, (e, s, p) in enumerate(lv1):
            ec = x["td"][i][0]
            if ec <= 0: continue
            T = np.array(x["td"][i][2:]).reshape(-1, 2)
            for l in range(len(T)):
                if P * p * (-1) ** l < 0: continue
                for q, jp in ((0, l + .5), (1, l - .5)):
                    if jp > 0 and abs(J - jp) <= s <= J + jp: l1[i] += T[l, q]
    tot = p0.sum() + l0.sum() + (p1.sum() + l1.sum() if x["open"] else 0.)
    if tot == 0: return None
    return p0 / tot, l0 / tot, p1 / tot if x["open"] else None, l1 / tot if x["open"] else None
